// Stand-in for the header the project's own build generates: everything is linked statically into one simulated process.
#ifndef RTTI_API_H
#define RTTI_API_H
#define RTTI_API
#define RTTI_NO_EXPORT
#define RTTI_PRIVATE
#ifndef RTTI_DEPRECATED
#  define RTTI_DEPRECATED __attribute__ ((__deprecated__))
#endif
#endif
