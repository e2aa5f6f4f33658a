#ifndef SUP_LOG_SEVERITY_H_
#define SUP_LOG_SEVERITY_H_
#endif
