// Driver of the asynchronous SSL sockets: the same with an encrypting remote end.
#define DRV_SSL 1
#include "sock.h"
