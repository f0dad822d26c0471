/* A small specification that covers the declaration forms, for the checks of
 * the generated codecs. */
const SIX = 6;
const HEX = 0x5;

enum color { red = 0, green = 1, blue = 5, top = 2147483647 };

typedef opaque fix5[5];
typedef opaque var6<SIX>;
typedef opaque varu<>;
typedef string str5<HEX>;
typedef string stru<>;
typedef int ints3[3];
typedef unsigned hyper hypers2<2>;
typedef str5 strs2<2>;
typedef color colors<>;
typedef var6 var6s[2];
typedef ints3 grid<2>;
typedef var6 var6alias;
typedef int *optint;

struct flat {
  int a;
  unsigned int b;
  hyper c;
  unsigned hyper d;
  bool e;
  color f;
  opaque g[3];
  opaque h<7>;
  string i<9>;
  int j[2];
  unsigned int k<3>;
  bool *l;
};

struct node {
  int value;
  opaque tag<4>;
  node *next;
};

typedef node *nodelist;

struct tree {
  str5 name;
  tree *left;
  tree *right;
};

struct wide {
  node *chain;
  flat *one;
  strs2 names;
  flat many<2>;
  optint last;
};

union byint switch (int which) {
 case 0:
  void;
 case 1:
  int num;
 case 2:
 case 3:
  opaque data<8>;
 case 7:
  node *list;
 default:
  string other<6>;
};

union byenum switch (color c) {
 case red:
  unsigned hyper r;
 case green:
  node g;
 case blue:
  var6 b<2>;
};

union bybool switch (bool ok) {
 case TRUE:
  struct {
    int x;
    union switch (unsigned int sel) {
     case 4:
      opaque raw[2];
     default:
      void;
    } inner;
  } yes;
 default:
  void;
};

struct several {
  byint a;
  byenum b<2>;
  bybool c[2];
  struct {
    opaque p<3>;
    opaque q<3>;
    string r<3>;
  } in<2>;
};

struct blocks {
  opaque b1<>;
  opaque b2[4];
  opaque b3<>;
  opaque b4[1];
  varu b5;
  fix5 b6;
};
