#include "probe_impl.hpp"

int dispatch_ntlm(const string& mode, char** a) { return dispatch<hibp::pawned_pw_ntlm>(mode, a); }
