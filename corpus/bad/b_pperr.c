#define F(a, b) a b
int x = F(1);
#error stop here
