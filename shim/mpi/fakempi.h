// Control interface of the simulated MPI: run a function on N forked ranks
// under one seeded schedule, with a totally ordered event log.
#ifndef VERIF_FAKEMPI_CTL_H
#define VERIF_FAKEMPI_CTL_H
#include <cstdint>
#include <functional>
#include <string>
namespace fakempi {
struct Config {
  int nranks = 3;
  uint64_t seed = 1;
  uint64_t max_steps = 400000;   // baton hand-overs before the run counts as hung
  int max_delay = 24;            // usual upper bound on message delay (in steps)
  int long_delay_pct = 4;        // percentage of messages delayed much longer
  int stall_pct = 2;             // chance (per mille) that a rank is descheduled for long
  int yield_pct = 60;            // chance that an MPI poll hands over the baton
  int rendezvous_pct = 50;       // chance that a large send completes only when received
  int wall_s = 60;
};
struct Result {
  enum class End { Ok, Hang, Crash, Wall } end = End::Ok;
  int rank = -1;          // rank that crashed
  int code = 0;           // exit code or -signal
  uint64_t steps = 0;
  std::string log;        // one event per line, in global order
};
Result run(Config const& c, std::function<int(int rank)> fn);
// called by ranks
void log(std::string const& line);     // append to the global event log
uint64_t rnd();                        // shared schedule RNG (deterministic)
void yieldNow();                       // let other ranks run
int rank(); int size();
}
#endif
