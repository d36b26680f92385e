namespace dsim { void py_process_init(); }
extern "C" void dsim_process_init() { dsim::py_process_init(); }
