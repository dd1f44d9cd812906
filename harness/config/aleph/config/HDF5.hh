#ifndef ALEPH_CONFIG_HDF5_HH__
#define ALEPH_CONFIG_HDF5_HH__

#define ALEPH_WITH_HDF5

#endif
