#ifndef _VERSION_H_
#define _VERSION_H_
#define GIT_COMMIT_SHA1 "none"
#define GIT_COMMIT_DATE "UNKNOWN"
#define VOROCRUST_VERSION "Development Branch"
#endif
