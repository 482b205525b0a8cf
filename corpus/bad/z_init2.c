struct {int a; int : 3;} x = {1, 2};
