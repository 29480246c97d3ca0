unsigned long long nd__value;
extern unsigned long long nondet_ulonglong(void);
extern unsigned nondet_uint(void);
extern unsigned char nondet_uchar(void);
unsigned long long nd_raw64(void) { unsigned long long v = nondet_ulonglong(); nd__value = v; return v; }
unsigned nd_raw32(void) { unsigned v = nondet_uint(); nd__value = v; return v; }
unsigned char nd_u8(void) { unsigned char v = nondet_uchar(); nd__value = v; return v; }
