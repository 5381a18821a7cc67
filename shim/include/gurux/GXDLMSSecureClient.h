// Stand-in: lets src/devices/dlms_device.h be included; the DLMS driver itself needs gurux and is not built.
#pragma once
class CGXByteBuffer
{};
class CGXReplyData
{};
class CGXDLMSObject
{};
class CGXDLMSObjectCollection
{};
class CGXDLMSSecureClient
{};
enum DLMS_SECURITY
{
    DLMS_SECURITY_NONE
};
enum DLMS_AUTHENTICATION
{
    DLMS_AUTHENTICATION_NONE
};
enum DLMS_INTERFACE_TYPE
{
    DLMS_INTERFACE_TYPE_HDLC
};
