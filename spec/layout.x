const DEC = 10;
const HEX = 0x1f;
const OCT = 017;
enum color { red = 0, GREEN = DEC, blue = 0x10 };
typedef unsigned int uid;
typedef opaque fixed[4];
typedef opaque bounded<HEX>;
typedef opaque unbounded<>;
typedef string name<DEC>;
typedef string text<>;
typedef int arr[3];
typedef hyper list<2>;
typedef color colors<>;
typedef bool *maybe;
typedef struct { int a; unsigned hyper b<2>; } inlined;
typedef union switch (int k) { case 1: void; } inlinedu;
struct empty { };
struct node { int value; void; node *next; struct { bool x; bool y; } in[2]; };
struct one { string only<3>; };
union byint switch (int d) { case 0: void; case 1: case 0x2: name n; case OCT: node *list; default: arr rest; };
union byenum switch (color c) { case red: case GREEN: uid u; case blue: void; };
union bybool switch (bool ok) { case TRUE: union switch (unsigned int k) { case 7: int z; default: void; } deep; default: void; };
union nothing switch (int d) { default: void; };
program PROG {
  version V1 {
    void NULLPROC(void) = 0;
    node GET(name) = 1;
    bool TEST(unsigned int) = 0x2;
    void SET(byint) = 3;
  } = 1;
  version v2 {
    void NULLPROC2(void) = 0;
  } = 2;
} = 0x20000099;
program OTHER { version OV { hyper TAKE(void) = 01; } = 1; } = 77;
typedef int last;
