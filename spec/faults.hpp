// the library's error reports, as exceptions the proofs can tell apart
#pragma once
#include <cstddef>
enum Fault { OTHER, SHORT, MAGIC, PAGE, ACCESS };
struct fault { Fault f; };
namespace cppsas7bdat::EXCEPTION {
void cannot_allocate_memory() { throw fault{OTHER}; }
void not_a_valid_file(const char *) { throw fault{OTHER}; }
void header_too_short() { throw fault{SHORT}; }
void invalid_magic_number() { throw fault{MAGIC}; }
void cannot_read_page() { throw fault{PAGE}; }
void cannot_decompress() { throw fault{OTHER}; }
void invalid_buffer_access(const size_t, const size_t, const size_t) { throw fault{ACCESS}; }
}
