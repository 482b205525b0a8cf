#include "comments1_definitions.h"

// const int Constant1 = 1;
const int Constant1 = /* 100 */  // 200
    2;

/* int */ float getf() {
    // return 100;
    return 200 /*+1*/  //+2
        ;
}

/*


*///