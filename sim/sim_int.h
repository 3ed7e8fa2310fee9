#ifndef SIM_INT_H
#define SIM_INT_H
namespace sim {
 void prepare_child();   // switch layers on (after fork)
 void finish_child();
 namespace mem { void on(); extern int fill; }
 namespace sched { void init_child(); }
 extern __thread int internal_depth;
 extern bool layers_on;
 int sim_main(int argc, char** argv);
}
#endif
