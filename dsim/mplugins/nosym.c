/* A shared library that is no mapping plugin. */
int sim_no_plugin;
