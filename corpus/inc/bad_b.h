int from_b = ;
