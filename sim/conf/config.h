/* Stand-in for the config.h that configure generates: same values as on this machine. */
#define HAVE_BZ2 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_JANSSON 1
#define HAVE_LIBZ 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "ftwin"
#define PACKAGE_BUGREPORT "francois.pesce@gmail.com"
#define PACKAGE_NAME "ftwin"
#define PACKAGE_STRING "ftwin 0.8.10"
#define PACKAGE_TARNAME "ftwin"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.8.10"
#define STDC_HEADERS 1
#define VERSION "0.8.10"
