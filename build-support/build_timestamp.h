#define RRR_BUILD_TIMESTAMP  20260101000000
