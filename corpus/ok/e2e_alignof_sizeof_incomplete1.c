#include "alignof_sizeof_incomplete1_definitions.h"

STRUCT_S;

const unsigned int AlignmentX[2] = {_Alignof(S_t), _Alignof(S_Instance)};
const unsigned int SizeofX[2] = {sizeof(S_t), sizeof S_Instance};

unsigned int AlignmentOfX(int idx) {
    if (idx) {
        return _Alignof(S_t);
    } else {
        return _Alignof(S_Instance);
    }
}

unsigned int SizeOfX(int idx) {
    if (idx) {
        return sizeof(S_t);
    } else {
        return sizeof S_Instance;
    }
}
