"""Hand-written implementations of every supported trait for a mock type.

{H} is `impl<generics>`, {T} the type, {W} the where clause, {P} the argument of a generic trait and {O} the
associated type. None of this goes through the macro.
"""

# canonical name -> (externs group, bound to test, implementation)
IMPL = {
    "Iterator": ("", "::core::iter::Iterator", "{H} ::core::iter::Iterator for {T} {W} { type Item = {O}; fn next(&mut self) -> ::core::option::Option<{O}> { loop {} } }"),
    "DoubleEndedIterator": ("", "::core::iter::DoubleEndedIterator", "{H} ::core::iter::DoubleEndedIterator for {T} {W} { fn next_back(&mut self) -> ::core::option::Option<Self::Item> { loop {} } }"),
    "ExactSizeIterator": ("", "::core::iter::ExactSizeIterator", "{H} ::core::iter::ExactSizeIterator for {T} {W} {}"),
    "FusedIterator": ("", "::core::iter::FusedIterator", "{H} ::core::iter::FusedIterator for {T} {W} {}"),
    "Extend": ("", "::core::iter::Extend<{P}>", "{H} ::core::iter::Extend<{P}> for {T} {W} { fn extend<II: ::core::iter::IntoIterator<Item = {P}>>(&mut self, _: II) {} }"),
    "TrustedLen": ("", "::core::iter::TrustedLen", "{UH} ::core::iter::TrustedLen for {T} {W} {}"),
    "Future": ("", "::core::future::Future", "{H} ::core::future::Future for {T} {W} { type Output = {O}; fn poll(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<{O}> { loop {} } }"),
    "Read": ("", "::std::io::Read", "{H} ::std::io::Read for {T} {W} { fn read(&mut self, _: &mut [u8]) -> ::std::io::Result<usize> { loop {} } }"),
    "BufRead": ("", "::std::io::BufRead", "{H} ::std::io::BufRead for {T} {W} { fn fill_buf(&mut self) -> ::std::io::Result<&[u8]> { loop {} } fn consume(&mut self, _: usize) {} }"),
    "Write": ("", "::std::io::Write", "{H} ::std::io::Write for {T} {W} { fn write(&mut self, _: &[u8]) -> ::std::io::Result<usize> { loop {} } fn flush(&mut self) -> ::std::io::Result<()> { loop {} } }"),
    "Seek": ("", "::std::io::Seek", "{H} ::std::io::Seek for {T} {W} { fn seek(&mut self, _: ::std::io::SeekFrom) -> ::std::io::Result<u64> { loop {} } }"),
    "Deref": ("", "::core::ops::Deref", "{H} ::core::ops::Deref for {T} {W} { type Target = {O}; fn deref(&self) -> &{O} { loop {} } }"),
    "DerefMut": ("", "::core::ops::DerefMut", "{H} ::core::ops::DerefMut for {T} {W} { fn deref_mut(&mut self) -> &mut Self::Target { loop {} } }"),
    "Index": ("", "::core::ops::Index<{P}>", "{H} ::core::ops::Index<{P}> for {T} {W} { type Output = {O}; fn index(&self, _: {P}) -> &{O} { loop {} } }"),
    "IndexMut": ("", "::core::ops::IndexMut<{P}>", "{H} ::core::ops::IndexMut<{P}> for {T} {W} { fn index_mut(&mut self, _: {P}) -> &mut Self::Output { loop {} } }"),
    "RangeBounds": ("", "::core::ops::RangeBounds<{P}>", "{H} ::core::ops::RangeBounds<{P}> for {T} {W} { fn start_bound(&self) -> ::core::ops::Bound<&{P}> { loop {} } fn end_bound(&self) -> ::core::ops::Bound<&{P}> { loop {} } }"),
    "FnOnce": ("", "::core::ops::FnOnce<({P},)>", "{H} ::core::ops::FnOnce<({P},)> for {T} {W} { type Output = {O}; extern \"rust-call\" fn call_once(self, _: ({P},)) -> {O} { loop {} } }"),
    "FnMut": ("", "::core::ops::FnMut<({P},)>", "{H} ::core::ops::FnMut<({P},)> for {T} {W} { extern \"rust-call\" fn call_mut(&mut self, _: ({P},)) -> {O} { loop {} } }"),
    "Fn": ("", "::core::ops::Fn<({P},)>", "{H} ::core::ops::Fn<({P},)> for {T} {W} { extern \"rust-call\" fn call(&self, _: ({P},)) -> {O} { loop {} } }"),
    "Coroutine": ("", "::core::ops::Coroutine<{P}>", "{H} ::core::ops::Coroutine<{P}> for {T} {W} { type Yield = {O}; type Return = {O}; fn resume(self: ::core::pin::Pin<&mut Self>, _: {P}) -> ::core::ops::CoroutineState<{O}, {O}> { loop {} } }"),
    "AsRef": ("", "::core::convert::AsRef<{P}>", "{H} ::core::convert::AsRef<{P}> for {T} {W} { fn as_ref(&self) -> &{P} { loop {} } }"),
    "AsMut": ("", "::core::convert::AsMut<{P}>", "{H} ::core::convert::AsMut<{P}> for {T} {W} { fn as_mut(&mut self) -> &mut {P} { loop {} } }"),
    "fmt::Write": ("", "::core::fmt::Write", "{H} ::core::fmt::Write for {T} {W} { fn write_str(&mut self, _: &str) -> ::core::fmt::Result { loop {} } }"),
    "Error": ("", "::std::error::Error", "{H} ::std::error::Error for {T} {W} {}"),
    "futures03::Stream": ("", "::futures::stream::Stream", "{H} ::futures::stream::Stream for {T} {W} { type Item = {O}; fn poll_next(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::core::option::Option<{O}>> { loop {} } }"),
    "futures03::Sink": ("", "::futures::sink::Sink<{P}>", "{H} ::futures::sink::Sink<{P}> for {T} {W} { type Error = {O}; fn poll_ready(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::core::result::Result<(), {O}>> { loop {} } fn start_send(self: ::core::pin::Pin<&mut Self>, _: {P}) -> ::core::result::Result<(), {O}> { loop {} } fn poll_flush(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::core::result::Result<(), {O}>> { loop {} } fn poll_close(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::core::result::Result<(), {O}>> { loop {} } }"),
    "futures03::AsyncRead": ("", "::futures::io::AsyncRead", "{H} ::futures::io::AsyncRead for {T} {W} { fn poll_read(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>, _: &mut [u8]) -> ::core::task::Poll<::std::io::Result<usize>> { loop {} } }"),
    "futures03::AsyncWrite": ("", "::futures::io::AsyncWrite", "{H} ::futures::io::AsyncWrite for {T} {W} { fn poll_write(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>, _: &[u8]) -> ::core::task::Poll<::std::io::Result<usize>> { loop {} } fn poll_flush(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::std::io::Result<()>> { loop {} } fn poll_close(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::std::io::Result<()>> { loop {} } }"),
    "futures03::AsyncSeek": ("", "::futures::io::AsyncSeek", "{H} ::futures::io::AsyncSeek for {T} {W} { fn poll_seek(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>, _: ::std::io::SeekFrom) -> ::core::task::Poll<::std::io::Result<u64>> { loop {} } }"),
    "futures03::AsyncBufRead": ("", "::futures::io::AsyncBufRead", "{H} ::futures::io::AsyncBufRead for {T} {W} { fn poll_fill_buf(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::std::io::Result<&[u8]>> { loop {} } fn consume(self: ::core::pin::Pin<&mut Self>, _: usize) {} }"),
    "futures01::Future": ("01", "::futures::future::Future", "{H} ::futures::future::Future for {T} {W} { type Item = {O}; type Error = {O}; fn poll(&mut self) -> ::futures::Poll<{O}, {O}> { loop {} } }"),
    "futures01::Stream": ("01", "::futures::stream::Stream", "{H} ::futures::stream::Stream for {T} {W} { type Item = {O}; type Error = {O}; fn poll(&mut self) -> ::futures::Poll<::core::option::Option<{O}>, {O}> { loop {} } }"),
    "futures01::Sink": ("01", "::futures::sink::Sink", "{H} ::futures::sink::Sink for {T} {W} { type SinkItem = {O}; type SinkError = {O}; fn start_send(&mut self, _: {O}) -> ::futures::StartSend<{O}, {O}> { loop {} } fn poll_complete(&mut self) -> ::futures::Poll<(), {O}> { loop {} } }"),
    "rayon::ParallelIterator": ("", "::rayon::iter::ParallelIterator", "{H} ::rayon::iter::ParallelIterator for {T} {W} { type Item = {O}; fn drive_unindexed<CC>(self, _: CC) -> CC::Result where CC: ::rayon::iter::plumbing::UnindexedConsumer<Self::Item> { loop {} } }"),
    "rayon::IndexedParallelIterator": ("", "::rayon::iter::IndexedParallelIterator", "{H} ::rayon::iter::IndexedParallelIterator for {T} {W} { fn len(&self) -> usize { loop {} } fn drive<CC: ::rayon::iter::plumbing::Consumer<Self::Item>>(self, _: CC) -> CC::Result { loop {} } fn with_producer<CB: ::rayon::iter::plumbing::ProducerCallback<Self::Item>>(self, _: CB) -> CB::Output { loop {} } }"),
    "rayon::ParallelExtend": ("", "::rayon::iter::ParallelExtend<{P}>", "{H} ::rayon::iter::ParallelExtend<{P}> for {T} {W} { fn par_extend<II>(&mut self, _: II) where II: ::rayon::iter::IntoParallelIterator<Item = {P}> {} }"),
    "serde::Serialize": ("", "::serde::ser::Serialize", "{H} ::serde::ser::Serialize for {T} {W} { fn serialize<SS: ::serde::ser::Serializer>(&self, _: SS) -> ::core::result::Result<SS::Ok, SS::Error> { loop {} } }"),
    "http_body1::Body": ("", "::http_body::Body", "{H} ::http_body::Body for {T} {W} { type Data = &'static [u8]; type Error = {O}; fn poll_frame(self: ::core::pin::Pin<&mut Self>, _: &mut ::core::task::Context<'_>) -> ::core::task::Poll<::core::option::Option<::core::result::Result<::http_body::Frame<Self::Data>, {O}>>> { loop {} } }"),
    "tokio01::AsyncRead": ("01", "::tokio::io::AsyncRead", "{H} ::tokio::io::AsyncRead for {T} {W} {}"),
    "tokio01::AsyncWrite": ("01", "::tokio::io::AsyncWrite", "{H} ::tokio::io::AsyncWrite for {T} {W} { fn shutdown(&mut self) -> ::std::result::Result<::tokio::prelude::Async<()>, ::std::io::Error> { loop {} } }"),
}
for n in ("Debug", "Display", "Binary", "LowerExp", "LowerHex", "Octal", "Pointer", "UpperExp", "UpperHex"):
    IMPL[n if n in ("Debug", "Display") else "fmt::" + n] = (
        "", "::core::fmt::" + n,
        "{H} ::core::fmt::%s for {T} {W} { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} } }" % n)
for v, buf in (("1", "::tokio::io::ReadBuf<'_>"), ("03", "::tokio::io::ReadBuf<'_>"), ("02", None)):
    g = {"1": "", "03": "03", "02": "02"}[v]
    cx = "_: &mut ::core::task::Context<'_>"
    me = "self: ::core::pin::Pin<&mut Self>"
    P = "::core::task::Poll"
    rd = (f"fn poll_read({me}, {cx}, _: &mut {buf}) -> {P}<::std::io::Result<()>> {{ loop {{}} }}" if buf else
          f"fn poll_read({me}, {cx}, _: &mut [u8]) -> {P}<::std::io::Result<usize>> {{ loop {{}} }}")
    IMPL[f"tokio{v}::AsyncRead"] = (g, "::tokio::io::AsyncRead", "{H} ::tokio::io::AsyncRead for {T} {W} { " + rd + " }")
    IMPL[f"tokio{v}::AsyncWrite"] = (g, "::tokio::io::AsyncWrite", "{H} ::tokio::io::AsyncWrite for {T} {W} { "
        f"fn poll_write({me}, {cx}, _: &[u8]) -> {P}<::std::io::Result<usize>> {{ loop {{}} }} fn poll_flush({me}, {cx}) -> {P}<::std::io::Result<()>> {{ loop {{}} }} "
        f"fn poll_shutdown({me}, {cx}) -> {P}<::std::io::Result<()>> {{ loop {{}} }} " "}")
    sk = (f"fn start_seek({me}, _: ::std::io::SeekFrom) -> ::std::io::Result<()> {{ loop {{}} }}" if v != "02" else
          f"fn start_seek({me}, {cx}, _: ::std::io::SeekFrom) -> {P}<::std::io::Result<()>> {{ loop {{}} }}")
    IMPL[f"tokio{v}::AsyncSeek"] = (g, "::tokio::io::AsyncSeek", "{H} ::tokio::io::AsyncSeek for {T} {W} { " + sk +
        f" fn poll_complete({me}, {cx}) -> {P}<::std::io::Result<u64>> {{ loop {{}} }} " "}")
    # its supertrait comes with it
    IMPL[f"tokio{v}::AsyncBufRead"] = (g, "::tokio::io::AsyncBufRead", "{H} ::tokio::io::AsyncBufRead for {T} {W} { "
        f"fn poll_fill_buf({me}, {cx}) -> {P}<::std::io::Result<&[u8]>> {{ loop {{}} }} fn consume({me}, _: usize) {{}} " "}")

# supertraits the derive does not add by itself (they must be listed by the user)
SUPER = {
    "tokio01::AsyncRead": ["Read"],
    "tokio01::AsyncWrite": ["Write"],
    "futures03::AsyncBufRead": ["futures03::AsyncRead"],
    "tokio1::AsyncBufRead": ["tokio1::AsyncRead"],
    "tokio03::AsyncBufRead": ["tokio03::AsyncRead"],
    "tokio02::AsyncBufRead": ["tokio02::AsyncRead"],
}


def subst(text, P="u8", O="u8"):
    return text.replace("{P}", P).replace("{O}", O)


def implement(name, ty, gen="", where="", P="u8", O="u8"):
    t = IMPL[name][2]
    return subst(t.replace("{UH}", f"unsafe impl{gen}").replace("{H}", f"impl{gen}").replace("{T}", ty).replace("{W}", where), P, O)


def bound(name, P="u8"):
    return subst(IMPL[name][1], P)


def has_arg(name):
    return "{P}" in IMPL[name][2]


def has_assoc(name):
    return "{O}" in IMPL[name][2]
