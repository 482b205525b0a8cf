int a = _Generic(1, char: 1, double: 2); int b = _Generic(1, int: 1, int: 2);
