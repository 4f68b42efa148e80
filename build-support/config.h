#define HAVE_DLFCN_H 1
#define HAVE_ENDIAN_H 1
#define HAVE_EVENT2_EVENT_H 1
#define HAVE_EVENT2_THREAD_H 1
#define HAVE_INET_IN6_LINUX 1
#define HAVE_INTTYPES_H 1
#define HAVE_JEMALLOC_JEMALLOC_H 1
#define HAVE_JSON_C_JSON_OBJECT_H 1
#define HAVE_JSON_C_JSON_OBJECT_ITERATOR_H 1
#define HAVE_JSON_C_JSON_TOKENER_H 1
#define HAVE_JSON_C_JSON_UTIL_H 1
#define HAVE_LIBEVENT 1
#define HAVE_LIBEVENT_PTHREADS 1
#define HAVE_LIBJEMALLOC 1
#define HAVE_LIBJSON_C 1
#define HAVE_LIBNGHTTP2 1
#define HAVE_LIBSYSTEMD 1
#define HAVE_LIBZ 1
#define HAVE_LINUX_UN_H 1
#define HAVE_LUA_H 1
#define HAVE_MYSQL 1
#define HAVE_NGHTTP2_NGHTTP2_H 1
#define HAVE_OPENSSL_CRYPTO_H 1
#define HAVE_OPENSSL_ERR_H 1
#define HAVE_OPENSSL_EVP_H 1
#define HAVE_OPENSSL_RAND_H 1
#define HAVE_OPENSSL_SHA_H 1
#define HAVE_PTHREAD_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCASESTR 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRLCPY 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_UN_H 1
#define HAVE_UNISTD_H 1
#define HAVE_VASPRINTF 1
#define HAVE_VSNPRINTF 1
#define HAVE_ZLIB_H 1
#define LT_OBJDIR ".libs/"
#define OPENSSL_API_COMPAT 0x10100000L
#define PACKAGE "read-route-record"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_NAME "Read Route Record"
#define PACKAGE_STRING "Read Route Record 1.37-1"
#define PACKAGE_TARNAME "read-route-record"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "1.37-1"
#define RRR_CONFIG_VERSION "1.37-1"
#define RRR_CONFIG_VERSION_MAJOR 1
#define RRR_CONFIG_VERSION_MINOR 37
#define RRR_CONFIG_VERSION_REVISION 1
#define RRR_HAS_PATH_MAX_IN_LINUX_LIMITS_H 1
#define RRR_HAVE_GET1_PEER_CERTIFICATE 1
#define RRR_HAVE_GETTID 1
#define RRR_HAVE_IP_PKTINFO 1
#define RRR_WITH_JSONC 1
#define RRR_HAVE_JSONC_NEW_NULL 1
#define RRR_HAVE_JSONC_NEW_UINT64 1
#define RRR_HAVE_LIBBSD 1
#define RRR_HAVE_NEW_OPENSSL_LOCK 1
#define RRR_HAVE_PTHREAD_SETNAME_NP 1
#define RRR_HAVE_SETPROCTITLE 1
#define RRR_HAVE_SETPROCTITLE_INIT 1
#define RRR_LUA_INTTYPE long long int
#define RRR_LUA_INTTYPE_PRI lli
#define RRR_MESSAGE_MIME_TYPE "application/rrr-message"
#define RRR_STATS_SOCKET_PREFIX "rrr_stats"
#define RRR_TYPE_MAX_BLOB_LENGTH 1024
#define RRR_WITH_LINUX_INPUT 1
#define STDC_HEADERS 1
#define VERSION "1.37-1"
#define RRR_TMP_PATH "/tmp"
#define RRR_RUN_DIR "/tmp"
#define RRR_WITH_OPENSSL_CRYPT 1
