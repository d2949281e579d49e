// Declarations only: enough to parse devices/dlms_device.h. The Gurux library itself is not part of this tree (C51).
#pragma once
class CGXDLMSSecureClient
{
public:
    ~CGXDLMSSecureClient();
};
class CGXByteBuffer;
class CGXReplyData;
class CGXDLMSObject;
class CGXDLMSObjectCollection;
enum DLMS_SECURITY { DLMS_SECURITY_NONE };
enum DLMS_AUTHENTICATION { DLMS_AUTHENTICATION_NONE };
enum DLMS_INTERFACE_TYPE { DLMS_INTERFACE_TYPE_HDLC };
