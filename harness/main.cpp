#include "engine.h"
#include <commons/verbose.h>
int main(int argc, char **argv) { commons::set_verbose_mode(0); commons::set_verbose_color(false); return vh::engine_main(argc, argv); }
