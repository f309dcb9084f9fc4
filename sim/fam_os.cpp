#include "kernel.h"
namespace sim {
void pollConfig(Rng& rng, Config& c);
World* makePoll(Ctx& c, Config const& cfg);
void fileConfig(Rng& rng, Config& c);
World* makeFile(Ctx& c, Config const& cfg);
#ifdef STORED_HAVE_ZMQ
void zmqConfig(Rng& rng, Config& c);
World* makeZmq(Ctx& c, Config const& cfg);
char const* const binaryName = "os";
#else
char const* const binaryName = "osnz";
#endif
Family const families[] = {
	{"P21", pollConfig, makePoll, 4, 120},
	{"P20", fileConfig, makeFile, 4, 100},
#ifdef STORED_HAVE_ZMQ
	{"P22", zmqConfig, makeZmq, 4, 80},
#endif
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
} // namespace sim
