/* ksim:virtual headers come from the in-memory source locator */
#include "virt/a.h"
#include <virt/a.h>
#include "virt/c.h"
#include <virt/empty.h>
#ifdef VB
int main(void) { struct va v = {VB(3)}; return v.x + in_c + vb_line; }
#endif
