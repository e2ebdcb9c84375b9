void harness();
int main() { harness(); return 0; }
