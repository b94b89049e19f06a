// asio/wrap.hpp is not in asio 1.28; strand::wrap is a member of io_service::strand there.
#include "asio/strand.hpp"
