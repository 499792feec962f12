"""Mutants of lines that the fix commits added: they do not count as planted bugs, but the checks have to see them too."""
exec(open("/verif/tools/plant/b2.py").read().split("READ_U16")[0])
OK = {"rs": "fn main() { panic!() }", "ext": []}
bug("m-single-write", "C03", "", "", [
    (BS, "        self.write_stream.write_all_buf(&mut self.write_buffer).await?;\n        // self.tcp_stream.flush().await?;", """        self.write_stream.write(&self.write_buffer).await?;
        self.write_buffer.clear();
        // self.tcp_stream.flush().await?;""")], OK)
bug("m-takeover-keeps-subs", "C14", "", "", [
    (MSG, "        self.subscriptions.disconnected(client_id);\n\n        self.sessions.delete(client_id)", """        let session = self.sessions.delete(client_id);
        if session.as_ref().map_or(true, |session| !session.sender().is_closed() && session.sender().capacity() == 32) {
            self.subscriptions.disconnected(client_id);
        }
        session""")], OK)
bug("m-owner-any", "C14", "", "", [(MSG, "Some(session) => session.sender().same_channel(sender),", "Some(session) => session.sender().same_channel(sender) || session.sender().is_closed(),")], OK)
bug("m-owner-true", "C14", "", "", [(MSG, "Some(session) => session.sender().same_channel(sender),", "Some(_) => true,")], OK)
bug("m-lost-unowned", "C14", "", "", [(H, "        if !self.session_owned(&client_id, &sender).await {\n            return;\n        }\n        info!", "        info!")], OK)
bug("m-packet-unowned", "C09", "", "", [(H, "        if !self.session_owned(&client_id, &tx).await {\n            debug!(", "        if false {\n            debug!(")], OK)
bug("m-filter-plus", "C08", "", "", [(SUBS, "_ => !level.contains(['+', '#']),", "_ => !level.contains('#'),")], OK)
bug("m-filter-hash-mid", "C08", "", "", [(SUBS, '"#" => levels.peek().is_none(),', '"#" => levels.peek().map_or(true, |next| next.is_empty()),')], OK)
bug("m-will-length", "C02", "", "", [(DEC, "        consume(&mut remaining_length, payload_size as u64)?;\n        let payload", "        remaining_length = remaining_length.saturating_sub(payload_size as u64);\n        let payload")], OK)
bug("m-password-length", "C02", "", "", [(DEC, "        consume(&mut remaining_length, size as u64)?;\n        Some(", "        remaining_length = remaining_length.saturating_sub(size as u64);\n        Some(")], OK)
bug("m-connect-trailing", "C02", "", "", [(DEC, "    validate_remaining_length(remaining_length, 0)?;\n\n    let connect_packet", "    buffer.get_bytes(remaining_length as usize).await?;\n\n    let connect_packet")], OK)
bug("m-unsub-others", "C05", "", "", [(SUBS, "node.clients.iter().all(|c| c == client_id)", "node.clients.iter().any(|c| c == client_id) || node.clients.is_empty()")], OK)
bug("m-unsub-prune", "C05", "", "", [(SUBS, "if !node.clients.is_empty() || node.children.len() > 1 {", "if node.children.len() > 1 {")], OK)
bug("m-unsub-prune2", "C05", "", "", [(SUBS, "if !node.clients.is_empty() || node.children.len() > 1 {", "if !node.clients.is_empty() || node.children.len() > 2 {")], OK)
bug("m-unsub-leak", "C16", "", "", [(SUBS, "            if unused {", "            if unused && needed_levels > 0 {"), (SUBS, "                node.children.remove(segments[needed_levels]);\n                continue;", "                node.children.remove(segments[needed_levels]);\n                continue;\n            }\n            if unused {\n                node.children.get_mut(segments[0]).unwrap().clients.retain(|c| c != client_id);\n                continue;")], OK)
bug("m-topics-truncate", "C13", "", "", [(SUBS, "            path.truncate(level);\n            path.push(segment);", "            path.truncate(level.max(path.len().min(1)));\n            path.push(segment);")], OK)
bug("m-dollar-all-levels", "C04", "", "", [(SUBS, "let wildcards_match = level > 0 || !segment.starts_with('$');", "let wildcards_match = !segment.starts_with('$');")], OK)
bug("m-dollar-sys", "C04", "", "", [(SUBS, "!segment.starts_with('$');", "!segment.starts_with(\"$SYS\");")], OK)
bug("m-dup-kept", "C06", "", "", [(H, "        publish.dup = false;\n", "")], OK)
bug("m-dup-sub", "C05", "", "", [(SUBS, "if !node.clients.contains(client_id) {", "if node.clients.last() != Some(client_id) {")], OK)
bug("m-drop-recursive", "C15", "", "", [(SUBS, "        let mut nodes = vec![std::mem::take(&mut self.children)];\n        while let", "        let mut nodes = vec![];\n        while let")], OK)
bug("m-stop", "C17", "", "", [(APP, "    manager_future.abort();\n", "")], OK)
bug("m-takeover-await", "C14", "", "", [(H, """            tokio::spawn(async move {
                Self::send(session.sender(), ServerEvent::Disconnect).await;
            });""", "            Self::send(session.sender(), ServerEvent::Disconnect).await;")], OK)
bug("m-takeover-drop", "C14", "", "", [(H, """            tokio::spawn(async move {
                Self::send(session.sender(), ServerEvent::Disconnect).await;
            });""", "            let _ = session.sender().try_send(ServerEvent::Disconnect);")], OK)
bug("m-no-closed", "C13", "", "", [(L, "                _ = server_event_tx.closed() => break,\n", "                _ = server_event_tx.closed(), if false => break,\n")], OK)
bug("m-passwd-prefix", "C12", "", "", [(PW, 'let entry_prefix = format!("{}:", user_name);', 'let entry_prefix = format!("{}", user_name);')], OK)
bug("m-passwd-eol", "C12", "", "", [(PW, "if !updated_credentials.is_empty() && !updated_credentials.ends_with('\\n') {", "if false {")], OK)
bug("m-passwd-cr", "C12", "", "", [(PW, "c == ':' || c == '\\n'", "c == ':'")], OK)
bug("m-second-connect", "C09", "", "", [(L, '                warn!("Client {:?} sent a second CONNECT", &client_id);\n                break;', '                warn!("Client {:?} sent a second CONNECT", &client_id);\n                continue;')], OK)
bug("m-disconnect-go-on", "C09", "", "", [(L, '                trace!("Client read task ended");\n                return;\n            }\n        }', '                trace!("Client read task ended");\n            }\n        }')], OK)
bug("m-pass-none", "C10", "", "", [(H, "None => Err(AuthenticationError::InvalidPassword),", 'None => self.identity_provider.authenticate(&user_name, ""),')], OK)
bug("m-nul-late", "C02", "", "", [(DEC, "if string.contains('\\0') {", "if string.starts_with('\\0') {")], OK)
bug("m-overlong-length", "C02", "", "", [(DEC, "if multiplier > 128 * 128 * 128 {", "if multiplier > 128 * 128 * 128 * 128 {")], OK)
bug("m-ownership-lazy", "C09", "", "", [(L, "            let disconnect = matches!(packet, ControlPacket::Disconnect(_));", "            let disconnect = matches!(packet, ControlPacket::Disconnect(_)) && server_event_tx.capacity() == 32;")], OK)
H_TRY = "        Self::send(&sender, ServerEvent::ControlPacket(%s(%s))).await;"
for name, prop, v, k in [("suback", "C08", "sub_ack", "SubAck"), ("unsuback", "C08", "unsub_ack", "UnsubAck"), ("connack", "C13", "conn_ack", "ConnAck")]:
    bug("m-try-" + name, prop, "", "", [(H, "        " + H_TRY.strip() % (k, v) + "\n\n        // debug!(" if k == "ConnAck" else H_TRY % (k, v), "        let _ = sender.try_send(ServerEvent::ControlPacket(%s(%s)));" % (k, v) + ("\n\n        // debug!(" if k == "ConnAck" else ""))], OK)
bug("m-try-pingresp", "C08", "", "", [(H, "            Self::send(&sender, ServerEvent::ControlPacket(PingResp)).await;", "            let _ = sender.try_send(ServerEvent::ControlPacket(PingResp));")], OK)
bug("m-try-publish", "C07", "", "", [(H, "            Self::send(&sender, event).await;", "            let _ = sender.try_send(event);")], OK)
bug("m-try-lost", "C13", "", "", [(L, "        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);\n        if let Err(e) = client_event_tx.send(event).await {", "        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);\n        if let Err(e) = client_event_tx.try_send(event) {")], OK)
bug("m-takeover-first", "C10", "", "", [(H, "        self.take_over(&client_id).await;\n\n", ""), (H, "        if let Some(user_name) = packet.user_name {\n            let authentication", "        self.take_over(&client_id).await;\n\n        if let Some(user_name) = packet.user_name {\n            let authentication")], OK)
bug("m-refused-open", "C10", "", "", [(H, "                Self::send(&sender, ServerEvent::Disconnect).await;\n                return;", "                return;")], OK)
bug("m-refused-first", "C10", "", "", [(H, "                Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;\n                Self::send(&sender, ServerEvent::Disconnect).await;", "                Self::send(&sender, ServerEvent::Disconnect).await;")], OK)
bug("m-send-unwrap", "C15", "", "", [(H, "            debug!(\"Dropping event for an ended connection: {}\", &e);", "            panic!(\"Dropping event for an ended connection: {}\", &e);")], OK)
bug("m-packet-id-kept", "C06", "", "", [(H, "        publish.packet_id = None;\n", "")], OK)
bug("m-retain-kept", "C06", "", "", [(H, "        publish.message.retain = false;\n", "")], OK)
bug("m-qos-kept", "C06", "", "", [(H, "        publish.message.qos = QoS::AtMostOnce;\n", "")], OK)
bug("m-write-error-on", "C16", "", "", [(L, '                        error!("Error while writing packet: {:?}", &e);\n                        break;', '                        error!("Error while writing packet: {:?}", &e);')], OK)
bug("m-abort-only", "C17", "", "", [(APP, "    join_all(listeners).await;\n\n", "    drop(listeners);\n")], OK)
bug("m-unsuback-early", "C08", "", "", [(H, "        let _ = rx.await.unwrap();\n\n        let unsub_ack", "        drop(rx);\n\n        let unsub_ack")], OK)
bug("m-takeover-same-ip", "C14", "", "", [(H, "        self.take_over(&client_id).await;\n", "        if !client_id.contains('-') {\n            self.take_over(&client_id).await;\n        }\n")], OK)
bug("m-passwd-no-rename", "C22", "", "", [(PW, "            .and_then(|_| std::fs::rename(&new_path, &path));", "            .and_then(|_| std::fs::write(&path, content)).and_then(|_| std::fs::remove_file(&new_path));")] , OK)
bug("m-passwd-perm", "C22", "", "", [(PW, "    file.set_permissions(metadata.permissions())?;\n", "")], OK)
bug("m-passwd-chown", "C22", "", "", [(PW, "    std::os::unix::fs::fchown(&file, Some(metadata.uid()), Some(metadata.gid()))?;\n", "    let _ = metadata.uid();\n")], OK)
bug("m-passwd-link", "C22", "", "", [(PW, "    let path = std::fs::canonicalize(file_name)?;", "    let path = std::path::PathBuf::from(file_name);")], OK)
bug("m-passwd-leftover", "C22", "", "", [(PW, "    options.write(true).create(true).truncate(true);", "    options.write(true).create_new(true);"), (PW, '    new_path.push(format!(".{}.new", std::process::id()));', '    new_path.push(".new");')], OK)
bug("m-passwd-no-clean", "C22", "", "", [(PW, "            let _ = std::fs::remove_file(&new_path);\n", "")], OK)
bug("m-passwd-write-once", "C22", "", "", [(PW, "    file.write_all(content.as_bytes())?;", "    file.write(content.as_bytes())?;")], OK)
bug("m-passwd-fallback", "C22", "", "", [(PW, "                _ => Err(e),", "                _ => std::fs::write(&path, content),")], OK)
bug("m-passwd-unwrap", "C22", "", "", [(PW, "        replace_content(file_name, &updated_credentials).unwrap();", "        let _ = replace_content(file_name, &updated_credentials);")], OK)
