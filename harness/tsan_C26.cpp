// <file> <threads>
#include "c26.hpp"
void stubConfig(int threads, uint64_t seed);
int main(int argc, char** argv) {
    stubConfig(argc > 2 ? atoi(argv[2]) : 4, 0);
    return c26::runnerMain(argc, argv);
}
