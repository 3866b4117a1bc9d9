// apt's RapidJSON is release 1.1.0, the project is written for its master branch. The one thing it
// uses that 1.1.0 has not is SchemaDocument's constructor (document, uri, uriLength, provider): this
// header adds it in front of the installed one. The uri (the project passes none) is not used.
#ifndef VP_RAPIDJSON_SCHEMA_SHIM
#define VP_RAPIDJSON_SCHEMA_SHIM
#define SchemaDocument SchemaDocument110
#include_next <rapidjson/schema.h>
#undef SchemaDocument
RAPIDJSON_NAMESPACE_BEGIN
class SchemaDocument : public SchemaDocument110 {
public:
  SchemaDocument(const ValueType &document, const Ch *, SizeType,
                 IRemoteSchemaDocumentProviderType *provider = nullptr)
      : SchemaDocument110(document, provider) {}
};
RAPIDJSON_NAMESPACE_END
#endif
