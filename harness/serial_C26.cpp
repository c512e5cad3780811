#include "c26.hpp"
int main(int argc, char** argv) {
    return c26::runnerMain(argc, argv);
}
