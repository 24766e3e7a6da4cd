#ifndef CFG
#define CFG 0
#endif
int croaring_hardware_support(void) { return CFG; }
