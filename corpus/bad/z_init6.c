struct {struct {int a;} s; int : 3;} x = {{1}, {1}};
