// Driver of the asynchronous TCP sockets.
#include "sock.h"
