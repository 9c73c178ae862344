#ifndef CHAIN_PROPS_H
#define CHAIN_PROPS_H

#include "util/chains.h"

bool c4_eth_chain_props(chain_id_t chain_id, chain_properties_t* props);

static inline bool c4_chains_get_props(chain_id_t chain_id, chain_properties_t* out_props) {
  if (!out_props) return false;
#ifdef HTTP_SERVER
  if (c4_eth_chain_props(chain_id, out_props)) return true;
#endif
  return false;
}

#endif // CHAIN_PROPS_H
