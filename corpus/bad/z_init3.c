struct S{}; struct S a[] = {1};
