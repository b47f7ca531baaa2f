// Stand-in for mp++ (not available offline): see /verif/DESIGN.md, "The mp++ shim".
#ifndef MPPP_CONFIG_HPP
#define MPPP_CONFIG_HPP
#define MPPP_VERSION_MAJOR 1
#define MPPP_HAVE_GCC_INT128
#endif
