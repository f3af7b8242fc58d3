#include "net/world.h"
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/UdsChannel.h>
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <dots/io/channels/LocalListener.h>
#include <dots/io/channels/LocalChannel.h>

namespace vf
{
    namespace io_ = dots::io;

    void openListener(dots::HostTransceiver& host, Tr t, const Address& a, io_::Listener*& local)
    {
        std::string port = std::to_string(a.port);
        if (t == Tr::Tcp2) host.listen<io_::v2::TcpListener>(a.host, port);
        else if (t == Tr::Tcp1) host.listen<io_::v1::TcpListener>(a.host, port);
        else if (t == Tr::Ws) host.listen<io_::WebSocketListener>(a.host, port);
        else if (t == Tr::Uds2) host.listen<io_::posix::v2::UdsListener>(std::string_view{ a.path });
        else if (t == Tr::Uds1) host.listen<io_::posix::v1::UdsListener>(std::string_view{ a.path });
        else local = &host.listen<io_::LocalListener>();
    }
    io_::channel_ptr_t openChannel(dots::asio::io_context& io, Tr tr, const Address& to, io_::Listener* local)
    {
        std::string port = std::to_string(to.port);
        if (tr == Tr::Tcp2) return io_::make_channel<io_::v2::TcpChannel>(io, to.host, port);
        if (tr == Tr::Tcp1) return io_::make_channel<io_::v1::TcpChannel>(io, to.host, port);
        if (tr == Tr::Ws) return io_::make_channel<io_::WebSocketChannel>(io, to.host, port);
        if (tr == Tr::Uds2) return io_::make_channel<io_::posix::v2::UdsChannel>(io, std::string_view{ to.path });
        if (tr == Tr::Uds1) return io_::make_channel<io_::posix::v1::UdsChannel>(io, std::string_view{ to.path });
        return io_::make_channel<io_::LocalChannel>(io, static_cast<io_::LocalListener&>(*local));
    }
}
