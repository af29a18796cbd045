// Runs the broker program (its main is renamed when it is compiled) as one simulated process.
#include <exception>
#include <string>
#include <vector>

#include "../sim/api.hpp"

#undef main
int vp_broker_main(int argc, char* argv[]);

extern "C" __attribute__((visibility("default"))) void vp_rank_entry(const char*) {
  try {
    const Scenario& s = api::scenario();
    if (s.i("broker_delay", 0)) sim::sleepUs(static_cast<uint64_t>(s.i("broker_delay")) * 1000000ull);
    std::vector<std::string> a{"thirdLevelManager", "--port=9999", "--numSystems=2", "--chunksize=" + std::to_string(s.i("broker_chunk", 131072))};
    std::vector<char*> v;
    for (auto& x : a) v.push_back(&x[0]);
    v.push_back(nullptr);
    const int rc = vp_broker_main(4, v.data());
    if (rc != 0) api::visibleFailure("the broker returned " + std::to_string(rc));
    sim::probe("broker-finished");
  } catch (const std::exception& e) {
    api::visibleFailure(std::string("exception: ") + e.what());
  } catch (...) {
    api::visibleFailure("unknown exception");
  }
}
