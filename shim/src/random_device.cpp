// Built with -Drandom_device=sim_random_device, like the node that uses it: the
// node's std::random_device yields what the harness chose.
#include <cstdint>
#include <random>
#include <string>
namespace sim
{
uint32_t random_seed = 1;
}
#ifdef random_device
namespace std
{
void sim_random_device::_M_init(const std::string&) {}
void sim_random_device::_M_fini() {}
sim_random_device::result_type sim_random_device::_M_getval() { return sim::random_seed; }
}  // namespace std
#endif
