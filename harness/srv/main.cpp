#include "vp_run_impl.h"
int main(int argc, char** argv) { return vp::run_main(argc, argv); }
