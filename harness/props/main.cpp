#include "../engine.hpp"
int main(int argc, char** argv) { return vp::run_main(argc, argv, vp::registry()); }
