// Declarations-only stand-in for the parts of the AWS C++ SDK that z5's S3
// backend names, so that the backend can be parsed and type-checked offline.
// Nothing here is ever linked or run.
#pragma once
#include <cstddef>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace Aws {
    using String = std::string;
    template<class T> using Vector = std::vector<T>;
    using StringStream = std::stringstream;
    using IOStream = std::iostream;
    template<class T, class... A> std::shared_ptr<T> MakeShared(const char * tag, A &&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }
    namespace Utils { namespace Logging {
        enum class LogLevel { Off, Fatal, Error, Warn, Info, Debug, Trace };
        class LogSystemInterface { public: virtual ~LogSystemInterface() = default; };
        class ConsoleLogSystem : public LogSystemInterface { public: ConsoleLogSystem(LogLevel); };
    } }
    struct LoggingOptions {
        Utils::Logging::LogLevel logLevel;
        std::function<std::shared_ptr<Utils::Logging::LogSystemInterface>()> logger_create_fn;
    };
    struct SDKOptions { LoggingOptions loggingOptions; };
    void InitAPI(const SDKOptions &);
    void ShutdownAPI(const SDKOptions &);
    namespace Http {
        enum class Scheme { HTTP, HTTPS };
        enum class HttpResponseCode { REQUEST_NOT_MADE = -1, OK = 200, FORBIDDEN = 403, NOT_FOUND = 404, INTERNAL_SERVER_ERROR = 500 };
    }
    namespace Client {
        struct ClientConfigurationInitValues { bool shouldDisableIMDS = false; };
        template<class E> class AWSError {
        public:
            const E GetErrorType() const;
            Http::HttpResponseCode GetResponseCode() const;
            const Aws::String & GetMessage() const;
            const Aws::String & GetExceptionName() const;
            bool ShouldRetry() const;
        };
    }
    namespace Utils {
        template<class R, class E> class Outcome {
        public:
            bool IsSuccess() const;
            const R & GetResult() const;
            R & GetResult();
            R && GetResultWithOwnership();
            const E & GetError() const;
        };
    }
    namespace Auth {
        class AWSCredentialsProvider { public: virtual ~AWSCredentialsProvider() = default; };
        class AnonymousAWSCredentialsProvider : public AWSCredentialsProvider {};
        class SimpleAWSCredentialsProvider : public AWSCredentialsProvider {
        public: SimpleAWSCredentialsProvider(const Aws::String &, const Aws::String &);
        };
        class DefaultAWSCredentialsProviderChain : public AWSCredentialsProvider {};
    }
    namespace S3 {
        enum class S3Errors { NO_SUCH_KEY, NO_SUCH_BUCKET, RESOURCE_NOT_FOUND, ACCESS_DENIED, UNKNOWN };
        using S3Error = Aws::Client::AWSError<S3Errors>;
        struct S3ClientConfiguration {
            S3ClientConfiguration(const Client::ClientConfigurationInitValues &);
            Aws::String region; Aws::String endpointOverride; Http::Scheme scheme;
            long connectTimeoutMs; long requestTimeoutMs; bool useVirtualAddressing;
        };
        class S3EndpointProvider {};
        namespace Model {
            class Object { public: const Aws::String & GetKey() const; long long GetSize() const; };
            class CommonPrefix { public: const Aws::String & GetPrefix() const; };
            class ObjectIdentifier { public: void SetKey(const Aws::String &); };
            class Delete { public: void AddObjects(const ObjectIdentifier &); void SetQuiet(bool); };
            class Error { public: const Aws::String & GetKey() const; const Aws::String & GetMessage() const; const Aws::String & GetCode() const; };
            class ListObjectsV2Request {
            public:
                ListObjectsV2Request & WithBucket(const Aws::String &); ListObjectsV2Request & WithPrefix(const Aws::String &);
                ListObjectsV2Request & WithDelimiter(const Aws::String &); ListObjectsV2Request & WithMaxKeys(int);
                ListObjectsV2Request & WithContinuationToken(const Aws::String &);
                void SetBucket(const Aws::String &); void SetPrefix(const Aws::String &); void SetDelimiter(const Aws::String &);
                void SetMaxKeys(int); void SetContinuationToken(const Aws::String &);
            };
            class ListObjectsV2Result {
            public:
                const Aws::Vector<Object> & GetContents() const; const Aws::Vector<CommonPrefix> & GetCommonPrefixes() const;
                const Aws::String & GetNextContinuationToken() const; bool GetIsTruncated() const; int GetKeyCount() const;
            };
            class GetObjectRequest { public: void SetBucket(const Aws::String &); void SetKey(const Aws::String &); void SetRange(const Aws::String &); };
            class GetObjectResult { public: long long GetContentLength() const; Aws::IOStream & GetBody() const; const Aws::String & GetContentType() const; };
            class PutObjectRequest { public: void SetBucket(const Aws::String &); void SetKey(const Aws::String &); void SetBody(const std::shared_ptr<Aws::IOStream> &); void SetContentLength(long long); void SetContentType(const Aws::String &); };
            class PutObjectResult {};
            class HeadObjectRequest { public: void SetBucket(const Aws::String &); void SetKey(const Aws::String &); };
            class HeadObjectResult { public: long long GetContentLength() const; };
            class DeleteObjectRequest { public: void SetBucket(const Aws::String &); void SetKey(const Aws::String &); };
            class DeleteObjectResult {};
            class DeleteObjectsRequest { public: void SetBucket(const Aws::String &); void SetDelete(const Delete &); };
            class DeleteObjectsResult { public: const Aws::Vector<Error> & GetErrors() const; };
            using ListObjectsV2Outcome = Aws::Utils::Outcome<ListObjectsV2Result, S3Error>;
            using GetObjectOutcome = Aws::Utils::Outcome<GetObjectResult, S3Error>;
            using PutObjectOutcome = Aws::Utils::Outcome<PutObjectResult, S3Error>;
            using HeadObjectOutcome = Aws::Utils::Outcome<HeadObjectResult, S3Error>;
            using DeleteObjectOutcome = Aws::Utils::Outcome<DeleteObjectResult, S3Error>;
            using DeleteObjectsOutcome = Aws::Utils::Outcome<DeleteObjectsResult, S3Error>;
        }
        class S3Client {
        public:
            S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> &, std::shared_ptr<S3EndpointProvider>, const S3ClientConfiguration &);
            Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request &) const;
            Model::GetObjectOutcome GetObject(const Model::GetObjectRequest &) const;
            Model::PutObjectOutcome PutObject(const Model::PutObjectRequest &) const;
            Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest &) const;
            Model::DeleteObjectOutcome DeleteObject(const Model::DeleteObjectRequest &) const;
            Model::DeleteObjectsOutcome DeleteObjects(const Model::DeleteObjectsRequest &) const;
        };
    }
}
