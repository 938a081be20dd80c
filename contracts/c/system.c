/* values of the page protection and stream enumerations, next to the system's own */
#include <Zycore/API/Memory.h>
#include <Zycore/API/Terminal.h>
#include <sys/mman.h>
unsigned page_zyan(unsigned i) { switch (i) { case 0: return ZYAN_PAGE_READONLY; case 1: return ZYAN_PAGE_READWRITE; case 2: return ZYAN_PAGE_EXECUTE; case 3: return ZYAN_PAGE_EXECUTE_READ; default: return ZYAN_PAGE_EXECUTE_READWRITE; } }
unsigned page_sys(unsigned i) { switch (i) { case 0: return PROT_READ; case 1: return PROT_READ | PROT_WRITE; case 2: return PROT_EXEC; case 3: return PROT_EXEC | PROT_READ; default: return PROT_EXEC | PROT_READ | PROT_WRITE; } }
unsigned stream_in(void) { return ZYAN_STDSTREAM_IN; }
unsigned stream_out(void) { return ZYAN_STDSTREAM_OUT; }
unsigned stream_err(void) { return ZYAN_STDSTREAM_ERR; }
