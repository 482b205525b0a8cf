/* ksim:noattr */
int __attribute__((unused)) x;
