extern "C" int cgmf_sim_main(int, char**);
extern "C" int node_entry(int argc, char** argv) { return cgmf_sim_main(argc, argv); }
