int before = 1; _Static_assert(sizeof(int) == 8, "int is not 8 bytes"); int after;
