// The sender is exercised through the channel (see transport_send.rs).
