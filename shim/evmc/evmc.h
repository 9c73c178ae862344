// Stand-in for ethereum/evmc (not available offline): only the types the C wrapper header needs.
#ifndef VERIF_EVMC_H
#define VERIF_EVMC_H
#include <stdint.h>
typedef struct evmc_address { uint8_t bytes[20]; } evmc_address;
typedef struct evmc_bytes32 { uint8_t bytes[32]; } evmc_bytes32;
typedef struct evmc_bytes32 evmc_uint256be;
enum evmc_status_code { EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4, EVMC_REJECTED = -2, EVMC_INTERNAL_ERROR = -1 };
#endif
