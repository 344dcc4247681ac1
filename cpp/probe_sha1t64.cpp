#include "probe_impl.hpp"

int dispatch_sha1t64(const string& mode, char** a) { return dispatch<hibp::pawned_pw_sha1t64>(mode, a); }
