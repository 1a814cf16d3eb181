/* The symbols of the C interface, found in the objects of the crate only: a hidden reference cannot be met by another library. */
#define S(n) extern char n[] __attribute__((weak, visibility("hidden")));
#include "symbols.h"
#undef S
struct e { const char *name; void *at; };
#define S(n) { #n, n },
__attribute__((visibility("default"))) struct e *csyms(void) { static struct e t[] = {
#include "symbols.h"
{ 0, 0 } }; return t; }
