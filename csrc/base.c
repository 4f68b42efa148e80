#include "lib/rrr_config.h"
RRR_CONFIG_DEFINE_DEFAULT_LOG_PREFIX("h");
