int x = 'abc; char *s = "unterminated;
