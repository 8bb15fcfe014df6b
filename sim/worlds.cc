#include "sim.h"
void world_db(const std::string &);
void world_pool(const std::string &);
void world_cache(const std::string &);
void world_ftwin(const std::string &);
void world_archive(const std::string &);
void world_image(const std::string &);
namespace sim {
const World worlds[] = {
    { "D01", world_db }, { "D02", world_db }, { "D03", world_db }, { "D04", world_db }, { "D05", world_db }, { "D06", world_db }, { "D07", world_db }, { "D08", world_db },
    { "T01", world_pool }, { "T02", world_pool }, { "T03", world_pool }, { "T04", world_pool },
    { "K01", world_cache }, { "K02", world_cache }, { "K03", world_cache },
    { "F01", world_ftwin }, { "F02", world_ftwin }, { "F03", world_ftwin }, { "F04", world_ftwin }, { "F05", world_ftwin }, { "F06", world_ftwin }, { "F07", world_ftwin }, { "F08", world_ftwin }, { "F09", world_ftwin }, { "F10", world_ftwin },
    { "A01", world_archive }, { "I01", world_image },
    { nullptr, nullptr } };
}
