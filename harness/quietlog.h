// Stand-in for the logging library where logging is not the subject: every stream is mute, so messages are never produced.
#pragma once
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <stdlib.h>
namespace icl_core { namespace logging {
Semaphore::Semaphore(size_t) : m_impl(0) {}
Semaphore::~Semaphore() {}
LogStream::LogStream(const icl_core::String&, icl_core::logging::LogLevel) : m_mutex(1) { m_active = true; }
LogStream::~LogStream() {}
icl_core::logging::LogLevel LogStream::getLogLevel() const { return eLL_MUTE; }
ThreadStream& LogStream::threadStream(icl_core::logging::LogLevel) { abort(); }
ThreadStream::ThreadStream(LogStream *p) : m_parent(p) {}
void ThreadStream::flush() {}
void ThreadStream::setClassname(const char*) {}
void ThreadStream::setFilename(const char*) {}
void ThreadStream::setFunction(const char*) {}
void ThreadStream::setObjectname(const char*) {}
void ThreadStream::setLine(size_t) {}
void ThreadStream::setLineLogLevel(icl_core::logging::LogLevel) {}
void ThreadStream::write(const char*, size_t, size_t) {}
void ThreadStream::printf(const char*, ...) {}
#define Q(T) ThreadStream& operator << (ThreadStream& s, T) { return s; }
Q(uint8_t) Q(uint16_t) Q(uint32_t) Q(uint64_t) Q(int8_t) Q(int16_t) Q(int32_t) Q(int64_t) Q(const char*) Q(const std::string&) Q(double) Q(bool) Q(void*) Q(const ThreadId&)
Q(const icl_core::TimeStamp&) Q(const icl_core::TimeSpan&)
#undef Q
LoggingManager::LoggingManager() {}
LoggingManager::~LoggingManager() {}
void LoggingManager::initialize() { m_initialized = true; }
namespace hidden { LogStreamRegistrar::LogStreamRegistrar(const icl_core::String&, LogStreamFactory f) { (*f)(); } }
} }
