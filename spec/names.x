/* Names and numbers of every kind. */
const ZERO = 0;
const DEC = 1234567;
const HEXLOW = 0xdeadbeef;
const HEXUP = 0X7FFFFFFF;
const HEXZ = 0x0000ff;
const OCT = 0755;
const OCTBIG = 017777777777;
const MAXI = 2147483647;
const lower_const = 42;
const mixedCase = 0x10;

enum one { ONLY = 0 };
enum sparse { sp_a = 0, sp_b = 1, sp_c = 10, sp_d = 0x20, sp_e = 0100, sp_f = 2147483647 };
enum unordered { LATE = 9, EARLY = 3, middle = 5, Again = 3 };
enum named { N_DEC = DEC, N_LOW = lower_const, N_PREV = 77 };

union pick switch (sparse s) {
 case sp_a: void;
 case sp_b: int b;
 case sp_c: case sp_d: unsigned hyper cd;
 case sp_e: opaque e<4>;
 default: string d<5>;
};

union pick2 switch (unordered u) {
 case LATE: int late;
 case EARLY: bool early;
 case middle: void;
};

union pick3 switch (unsigned int u) {
 case DEC: int dec;
 case lower_const: bool low;
 case 0x10: hyper hex;
 case 010: opaque oct[2];
 default: void;
};

struct arg { int a; string b<8>; opaque c<>; sparse s; };
struct ret { unsigned hyper x; arg *more; pick p; };
typedef opaque blob<>;
typedef int numbers<4>;
typedef arg *argopt;

program FIRST_PROG {
  version FIRST_V1 {
    void FIRST_NULL(void) = 0;
    ret FIRST_CALL(arg) = 1;
    void FIRST_SET(arg) = 2;
    ret FIRST_GET(void) = 3;
    blob first_lower(numbers) = 4;
    argopt FIRST_OPT(argopt) = 5;
    pick FIRST_PICK(pick2) = 6;
    ret FIRST_ECHO(ret) = 0x10;
    ret FIRST_OTHER(ret) = 021;
  } = 1;
  version FIRST_V2 {
    void FIRST_NULL2(void) = 0;
    bool FIRST_BOOL(bool) = 1;
    int FIRST_INT(int) = 2;
    unsigned int FIRST_UINT(unsigned int) = 3;
    hyper FIRST_HYPER(hyper) = 4;
    unsigned hyper FIRST_UHYPER(unsigned hyper) = 5;
    int FIRST_MIXED(bool) = 6;
    arg FIRST_SWAP(ret) = 7;
    ret FIRST_SWAP2(arg) = 8;
  } = 2;
} = 100003;

program second_prog {
  version second_v {
    sparse second_enum(unordered) = 1;
    unordered second_enum2(sparse) = 2;
    void second_big(blob) = 0xffffffff;
    blob second_max(void) = 2147483647;
  } = 0xfffffffe;
} = 0x20000001;
