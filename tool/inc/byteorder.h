/* makes every byte-order conversion of a compiled-table field visible as a call */
#include <stdint.h>
#include <endian.h>
#undef htole16
#undef htole32
#undef le16toh
#undef le32toh
uint16_t sa_htole16(uint16_t);
uint32_t sa_htole32(uint32_t);
uint16_t sa_le16toh(uint16_t);
uint32_t sa_le32toh(uint32_t);
#define htole16(x) sa_htole16(x)
#define htole32(x) sa_htole32(x)
#define le16toh(x) sa_le16toh(x)
#define le32toh(x) sa_le32toh(x)
