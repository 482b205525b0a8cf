int int long float x; typedef static int y; struct;
