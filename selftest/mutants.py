S = "src/server/mod.rs"
H = "src/server/streamable_http_server.rs"
MUTANTS = [
    # ---- C01
    ("c01-null-id", [(S, "            Request::Server(_) => JSONRPCResponse {\n                jsonrpc: \"2.0\".to_string(),\n                id,", "            Request::Server(_) => JSONRPCResponse {\n                jsonrpc: \"2.0\".to_string(),\n                id: RequestId::from(0i64),")], ["C01"]),
    ("c01-ping-noanswer", [(S, "        let response = server.handle_request(id, request).await;\n        let mut t", "        let quiet = matches!(&request, Request::Client(b) if matches!(**b, ClientRequest::Ping));\n        let response = server.handle_request(id, request).await;\n        if quiet { return Ok(()); }\n        let mut t")], ["C01"]),
    ("c01-double", [(S, "            TransportMessage::Notification(_) => {\n                Self::log_debug", "            TransportMessage::Notification(_) => {\n                let r = server.handle_request(RequestId::from(1i64), Request::Client(Box::new(ClientRequest::Ping))).await;\n                transport.write().await.send(TransportMessage::Response(r)).await?;\n                Self::log_debug")], ["C01"]),
    # ---- C02
    ("c02-swallow", [(S, "        let result = handler.read(&req.uri, extra).await?;\n        Ok(serde_json::to_value(result)?)", "        match handler.read(&req.uri, extra).await { Ok(result) => Ok(serde_json::to_value(result)?), Err(Error::Timeout(_)) => Ok(serde_json::json!({})), Err(e) => Err(e) }")], ["C02"]),
    ("c02-default-handler", [(S, "            .ok_or_else(|| Error::not_found(\"No sampling handler configured\".to_string()))?;", "            .ok_or_else(|| Error::not_found(\"No sampling handler configured\".to_string()));\n        let Ok(handler) = handler else { return Ok(serde_json::json!({})) };")], ["C02"]),
    # ---- C04
    ("c04-trim", [(S, "            .get(&req.name)\n            .ok_or_else(|| Error::not_found(format!(\"Tool", "            .get(req.name.trim())\n            .ok_or_else(|| Error::not_found(format!(\"Tool")], ["C04"]),
    ("c04-args", [(S, "handler.list(req.cursor, extra)", "handler.list(req.cursor.filter(|c| !c.is_empty()), extra)")], ["C04"]),
    ("c04-list-take", [(S, "            .keys()\n            .map(|name| crate::types::ToolInfo", "            .keys()\n            .take(50)\n            .map(|name| crate::types::ToolInfo")], ["C04"]),
    ("c04-loop-skip", [(S, "        let tools = self\n            .tools\n            .keys()\n            .map(|name| crate::types::ToolInfo {\n                name: name.clone(),\n                description: None,\n                input_schema: serde_json::json!({}),\n            })\n            .collect::<Vec<_>>();", "        let mut tools = Vec::new();\n        for name in self.tools.keys() {\n            if name.starts_with('_') { continue; }\n            tools.push(crate::types::ToolInfo {\n                name: name.clone(),\n                description: None,\n                input_schema: serde_json::json!({}),\n            });\n        }")], ["C04"]),
    # ---- C10
    ("c10-known-skip", [(H, "if !state.sessions.read().contains_key(&sid) {\n                    // Unknown session ID", "if !state.sessions.read().contains_key(&sid) && !sid.is_empty() {\n                    // Unknown session ID")], ["C10"]),
    ("c10-reinit", [(H, "Some(session_info) if session_info.initialized => {", "Some(session_info) if session_info.initialized && session_info.protocol_version.is_none() => {")], ["C10"]),
    ("c10-notif", [(H, "    let (response_session_id, _is_new_session) = if is_init_request {", "    if matches!(message, TransportMessage::Notification(_)) { return StatusCode::ACCEPTED.into_response(); }\n    let (response_session_id, _is_new_session) = if is_init_request {")], ["C10"]),
    ("c10-get", [(H, "if state.config.session_id_generator.is_some() && !state.sessions.read().contains_key(&sid)\n", "if state.config.event_store.is_some() && state.config.session_id_generator.is_some() && !state.sessions.read().contains_key(&sid)\n")], ["C10"]),
    # ---- C11
    ("c11-accept", [(H, "        } else {\n                return Err(create_error_response(\n                    StatusCode::NOT_ACCEPTABLE,\n                    -32700,\n                    \"Accept header is required\",\n                ));\n            }", "        }")], ["C11"]),
    ("c11-version-only-known", [(H, "if provided_version != negotiated_version {", "if provided_version != negotiated_version && session_info.initialized {")], ["C11"]),
    ("c11-order", [(H, "    if !is_init_request {\n        if let Err(error_response) =\n            validate_protocol", "    if !is_init_request && response_session_id.is_some() {\n        if let Err(error_response) =\n            validate_protocol")], ["C11"]),
    # ---- C12
    ("c12-owner", [(H, "if matches!(stream, Ok(Some(ref sid)) if *sid == session_id) {", "if matches!(stream, Ok(Some(_))) {")], ["C12"]),
    ("c12-pos", [(H, "stream_events[pos + 1..]", "stream_events[pos..]")], ["C12"]),
    ("c12-record", [(H, "let _ = event_store.store_event(sid, &event_id, &response).await;", "let _ = event_store.store_event(\"default\", &event_id, &response).await; let _ = sid;")], ["C12"]),
    # ---- C13
    ("c13-stream", [(H, "        // Remove SSE stream if exists\n        state.sse_streams.write().remove(&sid);\n", "        if state.config.event_store.is_none() { state.sse_streams.write().remove(&sid); }\n")], ["C13"]),
    ("c13-unknown", [(H, "if !session_exists && state.config.session_id_generator.is_some() {\n            // Unknown session in stateful", "if !session_exists && state.config.session_id_generator.is_some() && state.config.on_session_closed.is_none() {\n            // Unknown session in stateful")], ["C13"]),
    # ---- behaviour-preserving
    ("keep-http-1", [(H, "    if let Err(error_response) = validate_headers(&headers, \"POST\") {\n        return error_response;\n    }\n", "    match validate_headers(&headers, \"POST\") {\n        Ok(()) => {},\n        Err(resp) => return resp,\n    }\n"),
                     (H, "                if !state.sessions.read().contains_key(&sid) {\n                    // Unknown session ID\n                    Err(create_error_response(\n                        StatusCode::NOT_FOUND,\n                        -32600,\n                        \"Unknown session ID\",\n                    ))\n                } else {\n                    Ok(Some(sid))\n                }", "                let found = state.sessions.read().get(&sid).is_some();\n                found.then(|| sid.clone()).map(Some).ok_or_else(|| create_error_response(\n                        StatusCode::NOT_FOUND,\n                        -32600,\n                        \"Unknown session ID\",\n                    ))")], []),
    ("keep-http-2", [(H, "if !crate::SUPPORTED_PROTOCOL_VERSIONS.contains(&version.as_str()) {", "let supported = crate::SUPPORTED_PROTOCOL_VERSIONS.iter().any(|v| *v == version.as_str());\n        if !supported {"),
                     (H, "        let session_exists = state.sessions.write().remove(&sid).is_some();", "        let session_exists = match state.sessions.write().remove(&sid) { Some(_) => true, None => false };")], []),
    ("keep-server-1", [(S, "        let handler = self\n            .tools\n            .get(&req.name)\n            .ok_or_else(|| Error::not_found(format!(\"Tool '{}' not found\", req.name)))?;", "        let Some(handler) = self.tools.get(req.name.as_str()) else {\n            return Err(Error::not_found(format!(\"Tool '{}' not found\", req.name)));\n        };"),
                       (S, "                if let Err(e) = Self::handle_transport_message(&server, &transport, message).await {\n", "                let outcome = Self::handle_transport_message(&server, &transport, message).await;\n                if let Err(e) = outcome {\n"),
                       (S, "        let tools = self\n            .tools\n            .keys()\n            .map(|name| crate::types::ToolInfo {\n                name: name.clone(),\n                description: None,\n                input_schema: serde_json::json!({}),\n            })\n            .collect::<Vec<_>>();", "        let mut tools = Vec::with_capacity(self.tools.len());\n        for name in self.tools.keys() {\n            tools.push(crate::types::ToolInfo {\n                name: name.clone(),\n                description: None,\n                input_schema: serde_json::json!({}),\n            });\n        }")], []),
]
A = "src/server/auth/oauth2.rs"
M = "src/server/auth/middleware.rs"
MUTANTS += [
    ("c14-get-not-remove", [(A, "        let mut codes = self.codes.write().await;\n        let auth_code = codes\n            .remove(code)\n            .ok_or_else", "        let codes = self.codes.read().await;\n        let auth_code = codes\n            .get(code).cloned()\n            .ok_or_else")], ["C14"]),
    ("c14-late-remove", [(A, "        let mut codes = self.codes.write().await;\n        let auth_code = codes\n            .remove(code)\n            .ok_or_else", "        let found = self.codes.read().await.get(code).cloned();\n        self.codes.write().await.remove(code);\n        let auth_code = found\n            .ok_or_else")], ["C14"]),
    ("c14-expiry-grace", [(A, "        if auth_code.expires_at < Self::now() {", "        if auth_code.expires_at + 60 < Self::now() {")], ["C14"]),
    ("c14-client-optional", [(A, "        let client_id = request\n            .client_id\n            .as_ref()\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, \"Missing client_id\"))?;\n\n        if auth_code.client_id != *client_id {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Invalid client_id\",\n            ));\n        }", "        if let Some(client_id) = request.client_id.as_ref() {\n        if auth_code.client_id != *client_id {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Invalid client_id\",\n            ));\n        }}")], ["C14"]),
    ("c14-redirect-prefix", [(A, "auth_code.redirect_uri != *redirect_uri", "!redirect_uri.starts_with(&auth_code.redirect_uri)")], ["C14"]),
    ("c14-pkce-skip", [(A, "        if let Some(challenge) = &auth_code.code_challenge {\n            let verifier", "        if let (Some(challenge), Some(_)) = (&auth_code.code_challenge, &request.code_verifier) {\n            let verifier")], ["C14"]),
    ("c14-pkce-any", [(A, "            _ => false,\n        }\n    }\n}", "            _ => true,\n        }\n    }\n}")], ["C14"]),
    ("c14-pkce-s256-plain", [(A, "encoded == challenge", "encoded == challenge || verifier == challenge")], ["C14"]),
    ("c14-user", [(A, "self.create_access_token(&auth_code.client_id, &auth_code.user_id, auth_code.scopes)", "self.create_access_token(&auth_code.client_id, &auth_code.client_id, auth_code.scopes)")], ["C14"]),
    ("c15-validate-exp", [(A, "        if token_info.expires_at < Self::now() {", "        if token_info.expires_at.saturating_add(self.code_expiration) < Self::now() {")], ["C15"]),
    ("c15-refresh-keep-old", [(A, "            .tokens\n            .write()\n            .await\n            .remove(&old_token)\n            .ok_or", "            .tokens\n            .read()\n            .await\n            .get(&old_token).cloned()\n            .ok_or")], ["C15"]),
    ("c15-revoke-only-access", [(A, "            self.tokens.write().await.remove(&access_token);", "            let _ = access_token;")], ["C15"]),
    ("c15-revoke-early", [(A, "        let mut tokens = self.tokens.write().await;\n        if tokens.remove(token).is_some() {\n            return Ok(());\n        }\n        drop(tokens);", "        let mut tokens = self.tokens.write().await;\n        tokens.remove(token);\n        if !tokens.is_empty() {\n            return Ok(());\n        }\n        drop(tokens);")], ["C15"]),
    ("c16-scope-skip", [(A, "            if !self.supported_scopes.iter().any(|s| s == scope) {", "            if scope.starts_with(\"x-\") { continue; }\n            if !self.supported_scopes.iter().any(|s| s == scope) {")], ["C16"]),
    ("c16-scope-prefix", [(A, ".any(|s| s == scope)", ".any(|s| scope.starts_with(s.as_str()))")], ["C16"]),
    ("c16-scope-any", [(A, "        for scope in &requested_scopes {\n            if !self.supported_scopes.iter().any(|s| s == scope) {\n                return Err(Error::protocol(ErrorCode::INVALID_REQUEST, \"Invalid scope\"));\n            }\n        }", "        if !requested_scopes.is_empty() && !requested_scopes.iter().any(|scope| self.supported_scopes.iter().any(|s| s == scope)) {\n                return Err(Error::protocol(ErrorCode::INVALID_REQUEST, \"Invalid scope\"));\n        }")], ["C16"]),
    ("c16-redirect-prefix", [(A, "!client.redirect_uris.contains(&request.redirect_uri)", "!client.redirect_uris.iter().any(|u| request.redirect_uri.starts_with(u.as_str()))")], ["C16"]),
    ("c16-swap", [(A, "            client_id: client_id.to_string(),\n            user_id: user_id.to_string(),\n            redirect_uri", "            client_id: user_id.to_string(),\n            user_id: user_id.to_string(),\n            redirect_uri")], ["C16"]),
    ("c16-challenge-lost", [(A, "            code_challenge,\n            code_challenge_method,\n            expires_at,", "            code_challenge: code_challenge.filter(|c| c.len() >= 43),\n            code_challenge_method,\n            expires_at,")], ["C16"]),
    ("c17-anon-on-bad-scheme", [(M, "        if auth_info.scheme != AuthScheme::Bearer {\n            return Err", "        if auth_info.scheme != AuthScheme::Bearer && !self.required { return Ok(AuthContext { client_id: \"anonymous\".to_string(), user_id: \"anonymous\".to_string(), scopes: vec![], metadata: serde_json::Map::new() }); }\n        if auth_info.scheme != AuthScheme::Bearer {\n            return Err")], ["C17"]),
    ("c17-secret-none", [(M, "        if client.client_secret.as_deref() != Some(client_secret) {", "        if client.client_secret.as_deref().map_or(false, |s| s != client_secret) {")], ["C17"]),
    ("c17-scope-any", [(M, "            context.has_all_scopes(&scope_refs)\n", "            context.has_any_scope(&scope_refs)\n")], ["C17"]),
    ("c17-scope-first", [(M, "self.required_scopes.iter().map(|s| s.as_str()).collect();", "self.required_scopes.iter().take(1).map(|s| s.as_str()).collect();")], ["C17"]),
    ("c17-composite-default", [(M, "            middlewares,\n            require_any: true,", "            middlewares,\n            require_any: false,")], ["C17"]),
    ("c17-has-scope-prefix", [(M, "self.scopes.iter().any(|s| s == scope)", "self.scopes.iter().any(|s| scope.starts_with(s.as_str()))")], ["C17"]),
    ("c18-counter", [(A, "        Uuid::new_v4().to_string()\n", "        format!(\"{:x}\", Self::now())\n")], ["C18"]),
    ("c18-trunc", [(A, "        Uuid::new_v4().to_string()\n", "        { let mut s = Uuid::new_v4().to_string(); s.truncate(6); s }\n")], ["C18"]),
    ("c18-session", [("src/shared/session.rs", "            id: Uuid::new_v4().to_string(),", "            id: format!(\"s{}\", self.sessions.len()),")], ["C18"]),
    ("keep-auth-1", [(A, "        if auth_code.expires_at < Self::now() {", "        let now = Self::now();\n        if now > auth_code.expires_at {"),
                     (A, "        for scope in &requested_scopes {\n            if !self.supported_scopes.iter().any(|s| s == scope) {\n                return Err(Error::protocol(ErrorCode::INVALID_REQUEST, \"Invalid scope\"));\n            }\n        }", "        let all_ok = requested_scopes.iter().all(|scope| self.supported_scopes.iter().any(|s| s == scope));\n        if !all_ok {\n                return Err(Error::protocol(ErrorCode::INVALID_REQUEST, \"Invalid scope\"));\n        }"),
                     (A, "        if !client.redirect_uris.contains(&request.redirect_uri) {", "        let known = client.redirect_uris.iter().any(|u| *u == request.redirect_uri);\n        if !known {"),
                     (A, "        let token_info = tokens\n            .get(token)\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, \"Invalid token\"))?;", "        let Some(token_info) = tokens.get(token) else { return Err(Error::protocol(ErrorCode::INVALID_REQUEST, \"Invalid token\")); };")], []),
    ("keep-auth-2", [(M, "        if client.client_secret.as_deref() != Some(client_secret) {\n            return Err(Error::protocol(\n                ErrorCode::AUTHENTICATION_REQUIRED,\n                \"Invalid client credentials\",\n            ));\n        }", "        match &client.client_secret {\n            Some(known) if known == client_secret => {},\n            _ => return Err(Error::protocol(\n                ErrorCode::AUTHENTICATION_REQUIRED,\n                \"Invalid client credentials\",\n            )),\n        }"),
                     (M, "        let has_required_scopes = if self.require_all {\n            context.has_all_scopes(&scope_refs)\n        } else {\n            context.has_any_scope(&scope_refs)\n        };", "        let has_required_scopes = match self.require_all {\n            true => scope_refs.iter().all(|s| context.has_scope(s)),\n            false => scope_refs.iter().any(|s| context.has_scope(s)),\n        };"),
                     (A, "        if tokens.remove(token).is_some() {\n            return Ok(());\n        }\n        drop(tokens);\n", "        let was = tokens.remove(token);\n        drop(tokens);\n        if was.is_some() {\n            return Ok(());\n        }\n")], []),
    ("keep-auth-3", [(A, "        match method {\n            \"plain\" => verifier == challenge,", "        let plain = method == \"plain\";\n        if plain { return verifier == challenge; }\n        match method {"),
                     (A, "        if auth_code.client_id != *client_id {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Invalid client_id\",\n            ));\n        }", "        let same_client = auth_code.client_id.as_str() == client_id.as_str();\n        if !same_client {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Invalid client_id\",\n            ));\n        }")], []),
]
C = "src/client/mod.rs"
P = "src/shared/protocol.rs"
MUTANTS += [
    ("c05-sub-ungated", [(C, "    pub async fn unsubscribe_resource(&self, uri: String) -> Result<()> {\n        self.ensure_initialized()?;", "    pub async fn unsubscribe_resource(&self, uri: String) -> Result<()> {\n        if !uri.is_empty() { self.ensure_initialized()?; }")], ["C05"]),
    ("c05-gate-weak", [(C, "    fn ensure_initialized(&self) -> Result<()> {\n        if self.initialized {", "    fn ensure_initialized(&self) -> Result<()> {\n        if self.initialized || self.capabilities.is_some() {")], ["C05"]),
    ("c06-wrong-cap", [(C, "self.assert_capability(\"prompts\", \"prompts/get\")", "self.assert_capability(\"resources\", \"prompts/get\")")], ["C06"]),
    ("c06-wrong-field", [(C, ".is_some_and(|c| c.completions.is_some())", ".is_some_and(|c| c.prompts.is_some())")], ["C06"]),
    ("c06-subscribe-or", [(C, "if !resources.subscribe.unwrap_or(false) {", "if !resources.subscribe.unwrap_or(true) {")], ["C06"]),
    ("c07-early-caps", [(C, "                    // Validate protocol version\n", "                    self.server_capabilities = Some(init_result.capabilities.clone());\n")], ["C07"]),
    ("c07-server-echo", [(S, "                *self.client_capabilities.write().await = Some(", "                *self.initialized.write().await = true;\n                *self.client_capabilities.write().await = Some(")], []),
    ("c07-server-any", [(S, "                *self.initialized.write().await = true;", "                let _ = &self.initialized;")], ["C07"]),
    ("c07-reinit", [(C, "        if self.initialized {\n            return Err(Error::InvalidState(\"Client already", "        if self.initialized && self.instructions.is_none() {\n            return Err(Error::InvalidState(\"Client already")], ["C07"]),
    ("c08-non-response", [(C, "        // Remove from active requests, however the exchange ended\n        self.active_requests.write().await.remove(&request_id);\n\n        let response_message = outcome?;\n", "        let response_message = outcome?;\n        self.active_requests.write().await.remove(&request_id);\n")], ["C08"]),
    ("c08-non-response2", [(C, "        self.active_requests.write().await.remove(&request_id);\n\n        let response_message = outcome?;\n\n        match response_message {\n            crate::types::TransportMessage::Response(response) => Ok(response),", "        if outcome.is_err() { self.active_requests.write().await.remove(&request_id); }\n\n        let response_message = outcome?;\n\n        match response_message {\n            crate::types::TransportMessage::Response(response) => { self.active_requests.write().await.remove(&request_id); Ok(response) },")], ["C08"]),
    ("c09-wrong-transport", [(P, "if context.transport_id == self.transport_id {", "if context.transport_id == self.transport_id || self.pending_requests.is_empty() {")], ["C09"]),
    ("c09-lost", [(P, "                self.pending_requests.insert(id.clone(), context);\n", "                drop(context);\n")], ["C09"]),
    ("c09-cancel-all", [(P, "    pub fn cancel_request(&mut self, id: &RequestId) {\n        self.pending_requests.remove(id);", "    pub fn cancel_request(&mut self, id: &RequestId) {\n        self.pending_requests.retain(|k, _| k.to_string() != id.to_string());")], ["C09"]),
    ("c44-drop-arg", [(C, "        let request = Request::Client(Box::new(ClientRequest::ListPrompts(ListPromptsRequest {\n            cursor,", "        let request = Request::Client(Box::new(ClientRequest::ListPrompts(ListPromptsRequest {\n            cursor: cursor.filter(|c| !c.is_empty()),")], ["C44"]),
    ("c44-swallow", [(C, "                serde_json::from_value(result).map_err(|e| Error::parse(e.to_string()))\n            },\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                Err(Error::from_jsonrpc_error(error))\n            },\n        }\n    }\n\n    /// Read a", "                serde_json::from_value(result).or_else(|_| serde_json::from_value(serde_json::json!({\"resourceTemplates\": []}))).map_err(|e| Error::parse(e.to_string()))\n            },\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                Err(Error::from_jsonrpc_error(error))\n            },\n        }\n    }\n\n    /// Read a")], ["C44"]),
    ("c44-err-ok", [(C, "            crate::types::jsonrpc::ResponsePayload::Result(_) => Ok(()),\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                Err(Error::from_jsonrpc_error(error))\n            },", "            crate::types::jsonrpc::ResponsePayload::Result(_) => Ok(()),\n            crate::types::jsonrpc::ResponsePayload::Error(error) if error.code == -32601 => Ok(()),\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                Err(Error::from_jsonrpc_error(error))\n            },")], ["C44"]),
    ("c44-resend", [(C, "    pub async fn ping(&self) -> Result<()> {\n        self.ensure_initialized()?;\n        let request = Request::Client(Box::new(ClientRequest::Ping));\n        let request_id = RequestId::String(Uuid::new_v4().to_string());\n        let response = self.send_request(request_id, request).await?;", "    pub async fn ping(&self) -> Result<()> {\n        self.ensure_initialized()?;\n        let request = Request::Client(Box::new(ClientRequest::Ping));\n        let request_id = RequestId::String(Uuid::new_v4().to_string());\n        let mut r = self.send_request(request_id, request.clone()).await;\n        if r.is_err() { r = self.send_request(RequestId::String(Uuid::new_v4().to_string()), request).await; }\n        let response = r?;")], ["C44"]),
    ("keep-client-1", [(C, "        if self.initialized {\n            Ok(())\n        } else {\n            Err(Error::InvalidState(\"Client not initialized\".into()))\n        }", "        self.initialized.then_some(()).ok_or_else(|| Error::InvalidState(\"Client not initialized\".into()))"),
        (C, "            \"tools\" => self\n                .server_capabilities\n                .as_ref()\n                .is_some_and(|c| c.tools.is_some()),", "            \"tools\" => match &self.server_capabilities { Some(c) => c.tools.is_some(), None => false },"),
        (C, "        match response.payload {\n            crate::types::jsonrpc::ResponsePayload::Result(_) => Ok(()),\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                Err(Error::from_jsonrpc_error(error))\n            },\n        }", "        if let crate::types::jsonrpc::ResponsePayload::Error(error) = response.payload {\n            return Err(Error::from_jsonrpc_error(error));\n        }\n        Ok(())"),
        (C, "                if let Ok(init_result) = serde_json::from_value::<InitializeResult>(result) {\n                    // Validate protocol version\n                    if !crate::types::SUPPORTED_PROTOCOL_VERSIONS\n                        .contains(&init_result.protocol_version.as_str())\n                    {", "                if let Ok(init_result) = serde_json::from_value::<InitializeResult>(result) {\n                    // Validate protocol version\n                    let supported = crate::types::SUPPORTED_PROTOCOL_VERSIONS.iter().any(|v| *v == init_result.protocol_version);\n                    if !supported\n                    {")], []),
    ("keep-client-2", [(C, "        let outcome = async {\n            self.transport.write().await.send(message).await?;\n            self.transport.write().await.receive().await\n        }\n        .await;\n", "        let sent = self.transport.write().await.send(message).await;\n        let outcome = match sent {\n            Ok(()) => self.transport.write().await.receive().await,\n            Err(e) => Err(e),\n        };\n"),
        (P, "        if let Some(context) = self.pending_requests.get(id) {\n            if &context.transport_id == transport_id {", "        let owner = self.pending_requests.get(id).map(|c| c.transport_id.clone());\n        if let Some(owner) = owner {\n            if owner == *transport_id {"),
        (P, "        let (tx, rx) = oneshot::channel();\n        let context = RequestContext {\n            transport_id: self.transport_id.clone(),\n            sender: Arc::new(tokio::sync::Mutex::new(Some(tx))),\n        };\n        self.pending_requests.insert(id, context);\n        rx", "        let (tx, rx) = oneshot::channel();\n        let sender = Arc::new(tokio::sync::Mutex::new(Some(tx)));\n        let transport_id = self.transport_id.clone();\n        self.pending_requests.insert(id, RequestContext { transport_id, sender });\n        rx")], []),
]
SIO = "src/shared/stdio.rs"
WSC = "src/shared/websocket.rs"
WSS = "src/server/transport/websocket.rs"
HTC = "src/shared/http.rs"
STR = "src/shared/streamable_http.rs"
MUTANTS += [
    ("c19-stdio-eof", [(SIO, "                drop(stdin);\n                self.closed\n                    .store(true, std::sync::atomic::Ordering::Release);\n", "                drop(stdin);\n")], ["C19"]),
    ("c19-stdio-close", [(SIO, "        self.closed\n            .store(true, std::sync::atomic::Ordering::Release);\n\n        // Flush", "        if self.stdin.try_lock().is_ok() { self.closed.store(true, std::sync::atomic::Ordering::Release); }\n\n        // Flush")], ["C19"]),
    ("c20-len-chars", [(SIO, "json_bytes.len()", "String::from_utf8_lossy(json_bytes).chars().count()")], ["C20"]),
    ("c20-noflush", [(SIO, "        // Always flush stdio\n        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);", "        if json_bytes.len() < 8192 { stdout.flush().await.map_err(TransportError::from)?; }\n        drop(stdout);")], ["C20"]),
    ("c20-relock", [(SIO, "        // Write message payload\n", "        drop(stdout);\n        let mut stdout = self.stdout.lock().await;\n")], ["C20"]),
    ("c20-write", [(SIO, "            .write_all(json_bytes)\n            .await\n            .map_err(TransportError::from)?;", "            .write(json_bytes)\n            .await\n            .map_err(TransportError::from)?;")], ["C20"]),
    ("c20-swallow", [(SIO, "        // Always flush stdio\n        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);", "        let _ = stdout.flush().await;\n        drop(stdout);")], ["C20"]),
    ("c20-ws-skip", [(WSS, "Message::Text(json.into())", "Message::Text(json.trim_end_matches('}').to_string().into())")], ["C20"]),
    ("c20-println", [(SIO, "        let mut content_length = None;\n", "        let mut content_length = None;\n        println!(\"reading\");\n")], ["C20"]),
    ("c22-vec", [(SIO, "        let mut buffer = Vec::new();\n", "        let mut buffer = Vec::with_capacity(content_length);\n")], ["C22"]),
    ("c22-ws", [(WSS, "ws_config.max_message_size = self.config.max_message_size;", "ws_config.max_message_size = None;")], ["C22"]),
    ("c22-ws2", [(WSS, "accept_async_with_config(tcp_stream, Some(ws_config))", "accept_async_with_config(tcp_stream, None)")], ["C22"]),
    ("c40-noauth", [(STR, "        if let Some(auth_provider) = auth_provider {\n            let token = auth_provider.get_access_token().await?;\n            builder = builder.bearer_auth(token);\n        }", "        if let (Some(auth_provider), None) = (auth_provider, session_id.as_ref()) {\n            let token = auth_provider.get_access_token().await?;\n            builder = builder.bearer_auth(token);\n        }")], ["C40"]),
    ("c40-noversion", [(STR, "            builder = builder.header(MCP_PROTOCOL_VERSION, protocol_version);", "            if protocol_version.len() > 10 { builder = builder.header(MCP_PROTOCOL_VERSION, protocol_version); }")], ["C40"]),
    ("c40-bare-delete", [(STR, "self.build_request(reqwest::Method::DELETE, url).await;", "Ok::<_, Error>(self.client.request(reqwest::Method::DELETE, url));")], ["C40"]),
    ("c40-resume", [(STR, "            builder = builder.header(LAST_EVENT_ID, token);", "            let _ = token;")], ["C40"]),
    ("c40-status", [(STR, "            if !resp.status().is_success() {\n                return Err(Error::Transport(TransportError::Request(format!(\n                    \"SSE", "            if resp.status().is_server_error() {\n                return Err(Error::Transport(TransportError::Request(format!(\n                    \"SSE")], ["C40"]),
    ("c40-keep-session", [(STR, "            self.config.write().session_id = None;\n", "")], ["C40"]),
    ("c40-session-lie", [(STR, "response.headers().get(MCP_SESSION_ID)", "response.headers().get(MCP_PROTOCOL_VERSION)")], ["C40"]),
    ("c40-http-headers", [(HTC, "        for (name, value) in &self.config.headers {\n            builder = builder.header(name.as_str(), value.as_str());\n        }\n        let req = builder\n            .body(Full::new(Bytes::from(json)))", "        let req = builder\n            .body(Full::new(Bytes::from(json)))")], ["C40"]),
    ("c45-first-only", [(STR, "                for msg in batch {\n", "                for msg in batch.into_iter().take(1) {\n")], ["C45"]),
    ("c45-skip", [(STR, "                for msg in batch {\n                    self.sender", "                for msg in batch {\n                    if matches!(msg, TransportMessage::Notification(_)) { continue; }\n                    self.sender")], ["C45"]),
    ("c45-typed", [(STR, "                    if event.event.as_deref() == Some(\"message\") || event.event.is_none() {\n                        if let", "                    if event.event.as_deref() == Some(\"message\") {\n                        if let")], ["C45"]),
    ("c45-id", [(STR, "                    if let Some(id) = &event.id {\n                        *last_event_id.write() = Some(id.clone());\n                        if let", "                    if let Some(id) = &event.id {\n                        if last_event_id.read().as_ref() == Some(id) { continue; }\n                        *last_event_id.write() = Some(id.clone());\n                        if let")], ["C45"]),
    ("c45-http-drop", [(HTC, "        if body_bytes.is_empty() && !matches!", "        if !matches!")], ["C45"]),
    ("keep-transport-1", [(SIO, "        let mut buffer = Vec::new();\n", "        let mut buffer = Vec::with_capacity(content_length.min(64 * 1024));\n"),
        (STR, "            builder = builder.bearer_auth(token);", "            builder = builder.header(\"authorization\", format!(\"Bearer {token}\"));"),
        (STR, "        if let Some(session_id) = session_id {\n            builder = builder.header(MCP_SESSION_ID, session_id);\n        }", "        builder = match session_id {\n            Some(session_id) => builder.header(MCP_SESSION_ID, session_id),\n            None => builder,\n        };"),
        (STR, "                for msg in batch {\n                    self.sender\n                        .send(msg)\n                        .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;\n                }", "                batch.into_iter().try_for_each(|msg| self.sender.send(msg)).map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;"),
        (HTC, "        let req = builder\n            .body(Full::new(Bytes::from(json)))", "        let body = Full::new(Bytes::from(json));\n        let req = builder\n            .body(body)"),
        (SIO, "        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);\n\n        Ok(())", "        let flushed = stdout.flush().await;\n        drop(stdout);\n        flushed.map_err(TransportError::from)?;\n        Ok(())")], []),
    ("keep-transport-2", [(SIO, "        let mut buffer = Vec::new();\n", "        if content_length > 1 << 30 { return Err(TransportError::InvalidMessage(\"too long\".to_string()).into()); }\n        let mut buffer = Vec::with_capacity(content_length);\n"),
        (STR, "        for (key, value) in &extra_headers {\n            builder = builder.header(key, value);\n        }", "        builder = extra_headers.iter().fold(builder, |b, (key, value)| b.header(key, value));"),
        (STR, "            if !resp.status().is_success() {\n                return Err(Error::Transport(TransportError::Request(format!(\n                    \"SSE request failed with status: {}\",\n                    resp.status()\n                ))));\n            }", "            let status = resp.status();\n            if !(status.is_success()) {\n                return Err(Error::Transport(TransportError::Request(format!(\"SSE request failed with status: {}\", status))));\n            }"),
        (STR, "                    if event.event.as_deref() == Some(\"message\") || event.event.is_none() {\n                        if let", "                    if matches!(event.event.as_deref(), None | Some(\"message\")) {\n                        if let"),
        (SIO, "        if self.closed.load(std::sync::atomic::Ordering::Acquire) {\n            return Err(TransportError::ConnectionClosed.into());\n        }", "        let closed = self.closed.load(std::sync::atomic::Ordering::Acquire);\n        if closed {\n            return Err(TransportError::ConnectionClosed.into());\n        }")], []),
]

OA = "src/server/auth/oauth2.rs"
SU = "src/server/subscriptions.rs"
ND = "src/server/notification_debouncer.rs"
EL = "src/server/elicitation.rs"
RO = "src/server/roots.rs"
CN = "src/server/cancellation.rs"
RW = "src/server/resource_watcher.rs"
MUTANTS += [
    ("c24-reentry", [(SU, "            drop(subs);\n            if subscriber_count > 0 {", "            if subscriber_count > 0 {\n                let _ = self.subscriptions.write().await;")], ["C24"]),
    ("c25-cb-lock", [(SU, "            drop(subs);\n            if subscriber_count > 0 {", "            if subscriber_count > 0 {")], ["C25"]),
    ("c25-debounce", [(ND, "    let to_flush = std::mem::take(&mut *pending.write().await);\n\n    for (_, pending_notif) in to_flush {", "    let mut to_flush = pending.write().await;\n\n    for (_, pending_notif) in to_flush.drain() {")], ["C25"]),
    ("keep-lock-1", [(SU, "            drop(subs);\n            if subscriber_count > 0 {", "            std::mem::drop(subs);\n            let n = subscriber_count;\n            if n > 0 {")], []),
]

EV = "src/shared/event_store.rs"
SS = "src/shared/session.rs"
SM = "src/server/mod.rs"
MUTANTS += [
    ("c28-wrong-key", [(SU, "            .entry(uri)\n            .or_default()\n            .insert(subscriber_id);", "            .entry(uri.to_lowercase())\n            .or_default()\n            .insert(subscriber_id);")], ["C28"]),
    ("c28-swap", [(SU, "            .entry(uri)\n            .or_default()\n            .insert(subscriber_id);", "            .entry(subscriber_id)\n            .or_default()\n            .insert(uri);")], ["C28"]),
    ("c28-drop-entry", [(SU, "            subscribers.remove(&subscriber_id);\n            if subscribers.is_empty() {", "            subscribers.remove(&subscriber_id);\n            if subscribers.len() <= 1 {")], ["C28"]),
    ("c28-unsub-first", [(SU, "        for (uri, subscribers) in subs.iter_mut() {\n            subscribers.remove(subscriber_id);", "        for (uri, subscribers) in subs.iter_mut().take(64) {\n            subscribers.remove(subscriber_id);")], ["C28"]),
    ("c28-unsub-skip", [(SU, "        for (uri, subscribers) in subs.iter_mut() {\n            subscribers.remove(subscriber_id);", "        for (uri, subscribers) in subs.iter_mut() {\n            if subscribers.len() < 2 { continue; }\n            subscribers.remove(subscriber_id);")], ["C28"]),
    ("c28-notify-none", [(SU, "            if subscriber_count > 0 {", "            if subscriber_count > 1 {")], ["C28"]),
    ("c28-notify-any", [(SU, "        if let Some(subscribers) = subs.get(&uri) {\n            let subscriber_count = subscribers.len();\n            drop(subs);\n            if subscriber_count > 0 {", "        {\n            let subscriber_count = subs.len();\n            drop(subs);\n            if subscriber_count > 0 {")], ["C28"]),
    ("c28-notify-uri", [(SU, "                        uri: uri.clone(),\n                    });", "                        uri: uri.trim_end_matches('/').to_string(),\n                    });")], ["C28"]),
    ("keep-c28", [(SU, "        let mut subs = self.subscriptions.write().await;\n        if let Some(subscribers) = subs.get_mut(&uri) {\n            subscribers.remove(&subscriber_id);\n            if subscribers.is_empty() {\n                subs.remove(&uri);\n                drop(subs);\n            }\n        }\n        Ok(())\n    }\n",
                       "        let mut subs = self.subscriptions.write().await;\n        Self::drop_one(&mut subs, &uri, &subscriber_id);\n        Ok(())\n    }\n\n    fn drop_one(subs: &mut HashMap<String, HashSet<String>>, uri: &str, who: &str) {\n        let Some(subscribers) = subs.get_mut(uri) else { return };\n        subscribers.remove(who);\n        let empty = subscribers.is_empty();\n        if empty {\n            subs.remove(uri);\n        }\n    }\n"),
                  (SU, "        self.subscriptions\n            .write()\n            .await\n            .entry(uri)\n            .or_default()\n            .insert(subscriber_id);\n        Ok(())", "        let mut table = self.subscriptions.write().await;\n        let set = table.entry(uri).or_insert_with(HashSet::new);\n        set.insert(subscriber_id);\n        drop(table);\n        Ok(())"),
                  (SU, "        let mut empty_uris = Vec::new();\n\n        for (uri, subscribers) in subs.iter_mut() {\n            subscribers.remove(subscriber_id);\n            if subscribers.is_empty() {\n                empty_uris.push(uri.clone());\n            }\n        }\n\n        // Remove empty subscription entries\n        for uri in empty_uris {\n            subs.remove(&uri);\n        }\n", "        subs.retain(|_, subscribers| {\n            subscribers.remove(subscriber_id);\n            !subscribers.is_empty()\n        });\n")], []),
    ("c29-wrong-token", [(CN, "        tokens.insert(request_id, token.clone());\n        token", "        tokens.insert(request_id, token.child_token());\n        token")], ["C29"]),
    ("c29-leave", [(CN, "            let mut tokens = self.tokens.write().await;\n            tokens.remove(&request_id)\n        };", "            let tokens = self.tokens.read().await;\n            tokens.get(&request_id).cloned()\n        };")], ["C29"]),
    ("c29-no-cancel", [(CN, "            token.cancel();\n\n            // Send", "            if !self.tokens.read().await.is_empty() { token.cancel(); }\n\n            // Send")], ["C29"]),
    ("c29-clear", [(CN, "        for token in tokens.values() {\n            token.cancel();\n        }\n        tokens.clear();", "        if tokens.len() > 1 {\n        for token in tokens.values() {\n            token.cancel();\n        }\n        }\n        tokens.clear();")], ["C29"]),
    ("c29-remove-cancels", [(CN, "        let mut tokens = self.tokens.write().await;\n        tokens.remove(request_id);", "        let mut tokens = self.tokens.write().await;\n        if let Some(t) = tokens.remove(request_id) { t.cancel(); }")], ["C29"]),
    ("c29-told-id", [(CN, "RequestId::String(request_id.clone())", "RequestId::String(request_id.trim().to_string())")], ["C29"]),
    ("keep-c29", [(CN, "        for token in tokens.values() {\n            token.cancel();\n        }\n        tokens.clear();", "        for (_, token) in tokens.drain() {\n            token.cancel();\n        }"),
                  (CN, "        let token = {\n            let mut tokens = self.tokens.write().await;\n            tokens.remove(&request_id)\n        };\n\n        if let Some(token) = token {\n            // Cancel the token\n            token.cancel();\n", "        let Some(token) = self.tokens.write().await.remove(&request_id) else {\n            return Ok(());\n        };\n        {\n            token.cancel();\n")], []),
    ("c30-unregistered", [(EL, "            if pending.contains_key(&request.elicitation_id) {", "            if pending.len() > 4096 && pending.contains_key(&request.elicitation_id) {")], ["C30"]),
    ("c30-split", [(EL, "            let mut pending = self.pending.write().await;\n            if pending.contains_key(&request.elicitation_id) {", "            if self.pending.read().await.contains_key(&request.elicitation_id) {"), (EL, "            pending.insert(request.elicitation_id.clone(), tx);", "            self.pending.write().await.insert(request.elicitation_id.clone(), tx);")], ["C30"]),
    ("c30-leak-timeout", [(EL, "                warn!(\"Elicitation timeout: {}\", elicitation_id);\n                self.pending.write().await.remove(&elicitation_id);", "                warn!(\"Elicitation timeout: {}\", elicitation_id);")], ["C30"]),
    ("c30-leak-send", [(EL, "            self.pending.write().await.remove(&elicitation_id);\n            return Err", "            if let Ok(mut p) = self.pending.try_write() { p.remove(&elicitation_id); }\n            return Err")], ["C30"]),
    ("c30-made-up", [(EL, "                Err(Error::protocol(\n                    ErrorCode::INTERNAL_ERROR,\n                    \"Elicitation channel closed\",\n                ))", "                Ok(ElicitInputResponse { elicitation_id, value: None, cancelled: true, error: None })")], ["C30"]),
    ("c30-other", [(EL, "        if let Some(tx) = pending.remove(&response.elicitation_id) {", "        let key = if pending.len() == 1 { pending.keys().next().cloned().unwrap_or_default() } else { response.elicitation_id.clone() };\n        if let Some(tx) = pending.remove(&key) {")], ["C30"]),
    ("c30-cancel-wrong", [(EL, "                elicitation_id: elicitation_id.to_string(),\n                value: None,\n                cancelled: true,", "                elicitation_id: elicitation_id.to_string(),\n                value: None,\n                cancelled: false,")], ["C30"]),
    ("c30-accept-unknown", [(EL, "            warn!(\n                \"Received response for unknown elicitation: {}\",\n                response.elicitation_id\n            );\n            Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Unknown elicitation ID\",\n            ))", "            if response.cancelled { return Ok(()); }\n            Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Unknown elicitation ID\",\n            ))")], ["C30"]),
    ("keep-c30", [(EL, "                self.pending.write().await.remove(&elicitation_id);\n                Err(", "                self.forget(&elicitation_id).await;\n                Err("),
                  (EL, "    pub async fn pending_count(&self)", "    async fn forget(&self, id: &str) {\n        let mut table = self.pending.write().await;\n        table.remove(id);\n    }\n\n    /// .\n    pub async fn pending_count(&self)"),
                  (EL, "        if let Some(tx) = pending.remove(&response.elicitation_id) {\n            if tx.send(response).is_err() {", "        let waiting = pending.remove(&response.elicitation_id);\n        drop(pending);\n        if let Some(tx) = waiting {\n            if tx.send(response).is_err() {")], []),
    ("c31-scheme", [(RO, "        if !uri.starts_with(\"file://\") {", "        if !uri.starts_with(\"file:\") {")], ["C31"]),
    ("c31-scheme2", [(RO, "        if !uri.starts_with(\"file://\") {", "        if !uri.starts_with(\"file://\") && name.is_none() {")], ["C31"]),
    ("c31-name", [(RO, "            name,\n        };\n\n        {", "            name: name.filter(|n| !n.is_empty()),\n        };\n\n        {")], ["C31"]),
    ("c31-silent", [(RO, "        self.send_roots_list_changed();\n\n        // Return", "        if self.roots.read().await.len() == 1 { self.send_roots_list_changed(); }\n\n        // Return")], ["C31"]),
    ("c31-early", [(RO, "        {\n            self.roots.write().await.push(root);", "        self.send_roots_list_changed();\n        {\n            self.roots.write().await.push(root);"), (RO, "        // Send notification\n        self.send_roots_list_changed();\n\n        // Return", "        // Return")], ["C31"]),
    ("c31-unreg-name", [(RO, "position(|r| r.uri == uri)", "position(|r| r.uri.starts_with(&uri))")], ["C31"]),
    ("c31-unreg-two-locks", [(RO, "                let mut roots_guard = roots.write().await;\n                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {\n", "                let pos = roots.read().await.iter().position(|r| r.uri == uri);\n                let mut roots_guard = roots.write().await;\n                if let Some(pos) = pos {\n")], ["C31"]),
    ("c31-unreg-silent", [(RO, "                    if let Some(sender) = notification_sender {\n                        sender(ServerNotification::RootsListChanged);", "                    if let Some(sender) = notification_sender.filter(|_| pos > 0) {\n                        sender(ServerNotification::RootsListChanged);")], ["C31"]),
    ("c31-dup", [(RO, "            self.roots.write().await.push(root);", "            let mut r = self.roots.write().await;\n            if !r.contains(&root) { r.push(root); }")], ["C31"]),
    ("keep-c31", [(RO, "        {\n            self.roots.write().await.push(root);\n            info!(\"Registered root: {}\", uri);\n        }\n", "        let mut list = self.roots.write().await;\n        list.push(root);\n        drop(list);\n"),
                  (RO, "                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {\n                    roots_guard.remove(pos);\n                    drop(roots_guard);\n                    info!(\"Unregistered root: {}\", uri);\n\n                    // Send notification\n                    if let Some(sender) = notification_sender {\n                        sender(ServerNotification::RootsListChanged);\n                    }\n                }", "                let Some(pos) = roots_guard.iter().position(|r| uri == r.uri) else { return };\n                let _gone = roots_guard.remove(pos);\n                drop(roots_guard);\n                match notification_sender {\n                    Some(sender) => sender(ServerNotification::RootsListChanged),\n                    None => {},\n                }"),
                  (RO, "        if !uri.starts_with(\"file://\") {", "        let is_file = uri.starts_with(\"file://\");\n        if !is_file {")], []),
    ("c32-bound", [(EV, "        while events.len() > self.max_events {", "        if events.len() > self.max_events + 16 {")], ["C32"]),
    ("c32-bound2", [(EV, "        while events.len() > self.max_events {", "        while events.len() > self.max_events.max(1024) {")], ["C32"]),
    ("c32-age", [(EV, "            if event.timestamp < cutoff {", "            if event.timestamp < cutoff && events.len() > 8 {")], ["C32"]),
    ("c32-no-clean", [(EV, "        self.cleanup();\n        Ok(())", "        if self.events.read().len() % 2 == 0 { self.cleanup(); }\n        Ok(())")], ["C32"]),
    ("c32-back", [(EV, "        while events.len() > self.max_events {\n            events.pop_front();", "        while events.len() > self.max_events {\n            events.pop_back();")], ["C32"]),
    ("c32-since", [(EV, ".map_or(0, |idx| idx + 1)", ".map_or(0, |idx| idx)")], ["C32"]),
    ("c32-since2", [(EV, ".position(|e| e.id == event_id)", ".position(|e| e.id.starts_with(event_id))")], ["C32"]),
    ("c32-since3", [(EV, "skip(start_idx).take(limit)", "skip(start_idx).take(limit.min(1000))")], ["C32"]),
    ("c32-seq", [(EV, "            *counter += 1;\n            seq\n        };\n\n        let event = StoredEvent {\n            id: Uuid::new_v4().to_string(),\n            timestamp: Utc::now(),\n            message,\n            direction: MessageDirection::Outbound,", "            if seq < u64::from(u32::MAX) { *counter += 1; }\n            seq\n        };\n\n        let event = StoredEvent {\n            id: Uuid::new_v4().to_string(),\n            timestamp: Utc::now(),\n            message,\n            direction: MessageDirection::Outbound,")], ["C32"]),
    ("c32-seq-split", [(EV, "            let mut counter = self.sequence_counter.write();\n            let seq = *counter;\n            *counter += 1;\n            seq\n        };\n\n        let event = StoredEvent {\n            id: Uuid::new_v4().to_string(),\n            timestamp: Utc::now(),\n            message,\n            direction: MessageDirection::Inbound,", "            let seq = *self.sequence_counter.read();\n            *self.sequence_counter.write() += 1;\n            seq\n        };\n\n        let event = StoredEvent {\n            id: Uuid::new_v4().to_string(),\n            timestamp: Utc::now(),\n            message,\n            direction: MessageDirection::Inbound,")], ["C32"]),
    ("c32-id", [(EV, "            id: Uuid::new_v4().to_string(),\n            timestamp: Utc::now(),\n            message,\n            direction: MessageDirection::Inbound,", "            id: format!(\"{}-{}\", self.session_id, sequence),\n            timestamp: Utc::now(),\n            message,\n            direction: MessageDirection::Inbound,")], ["C32"]),
    ("c32-foreign", [(EV, "        events.retain(|e| e.session_id == self.session_id);\n", "")], ["C32"]),
    ("c32-foreign2", [(EV, "                e.session_id == self.session_id && e.direction", "                e.direction")], ["C32"]),
    ("c32-foreign3", [(EV, "            .filter(|state| state.session_id == self.session_id)\n", "")], ["C32"]),
    ("keep-c32", [(EV, "        self.cleanup();\n        Ok(())", "        self.enforce();\n        Ok(())"), (EV, "    fn cleanup(&self) {\n        let mut events = self.events.write();\n\n        // Remove old events beyond max_events\n        while events.len() > self.max_events {\n            events.pop_front();\n        }\n", "    fn enforce(&self) {\n        let mut events = self.events.write();\n        Self::trim(&mut events, self.max_events, self.max_age);\n    }\n\n    fn trim(events: &mut VecDeque<StoredEvent>, max_events: usize, max_age: chrono::Duration) {\n        loop {\n            if events.len() <= max_events { break; }\n            let _ = events.pop_front();\n        }\n"), (EV, "        let cutoff = Utc::now() - self.max_age;\n        while let Some(event) = events.front() {\n            if event.timestamp < cutoff {\n                events.pop_front();\n            } else {\n                break;\n            }\n        }", "        let cutoff = Utc::now() - max_age;\n        while events.front().is_some_and(|e| e.timestamp < cutoff) {\n            events.pop_front();\n        }"),
                  (EV, "        events.retain(|e| e.session_id == self.session_id);\n        Ok(events)", "        let own = &self.session_id;\n        let mut mine = Vec::with_capacity(events.len());\n        for e in events.drain(..) {\n            if &e.session_id == own {\n                mine.push(e);\n            }\n        }\n        Ok(mine)"),
                  (EV, "            .map_or(0, |idx| idx + 1);", "            .map(|idx| idx + 1)\n            .unwrap_or(0);")], []),
    ("c33-limit", [(SS, "        if self.sessions.len() >= self.config.max_sessions {", "        if self.sessions.len() > self.config.max_sessions {")], ["C33"]),
    ("c33-limit-race", [(SS, "        let create_guard = self.create_lock.lock();\n        if self", "        if self"), (SS, "        drop(create_guard);\n", "")], ["C33"]),
    ("c33-limit-race2", [(SS, "        let now = Utc::now();\n        let session = Session {", "        drop(create_guard);\n        let now = Utc::now();\n        let session = Session {"), (SS, "        self.sessions.insert(session.id.clone(), session.clone());\n        drop(create_guard);\n", "        self.sessions.insert(session.id.clone(), session.clone());\n")], ["C33"]),
    ("c33-resurrect", [(SS, "        self.sessions.get_mut(session_id).map(|mut session| {\n            // Update last activity in place, so that a session removed meanwhile stays removed\n            session.last_activity = Utc::now();\n            session.clone()\n        })", "        let mut session = self.sessions.get(session_id)?.clone();\n        session.last_activity = Utc::now();\n        self.sessions.insert(session_id.to_string(), session.clone());\n        Some(session)")], ["C33"]),
    ("c33-expired-mw", [(SS, "            self.manager.validate_session(&session_id).ok()", "            self.manager.get_session(&session_id)")], ["C33"]),
    ("c33-expired", [(SS, "        if session.expires_at < Utc::now() {", "        if session.expires_at < Utc::now() - Duration::minutes(5) {")], ["C33"]),
    ("c33-expired2", [(SS, "        if session.expires_at < Utc::now() {", "        if session.expires_at < Utc::now() && !self.config.persistent {")], ["C33"]),
    ("keep-c33-expired3", [(SS, "        if session.expires_at < Utc::now() {", "        if session.expires_at < session.last_activity {")], []),
    ("c33-cleanup", [(SS, "            .filter(|entry| entry.expires_at < now)", "            .filter(|entry| entry.expires_at < now || !entry.authenticated)")], ["C33"]),
    ("c33-id", [(SS, "            id: Uuid::new_v4().to_string(),", "            id: format!(\"session-{}\", self.sessions.len()),")], ["C33"]),
    ("keep-c33", [(SS, "        let expired: Vec<String> = self\n            .sessions\n            .iter()\n            .filter(|entry| entry.expires_at < now)\n            .map(|entry| entry.key().clone())\n            .collect();\n", "        let mut expired: Vec<String> = Vec::new();\n        for entry in self.sessions.iter() {\n            if now > entry.expires_at {\n                expired.push(entry.key().clone());\n            }\n        }\n"),
                  (SS, "        if session.expires_at < Utc::now() {\n            self.destroy_session(session_id)?;\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                \"Session expired\",\n            ));\n        }\n\n        Ok(session)", "        let now = Utc::now();\n        if session.expires_at >= now {\n            return Ok(session);\n        }\n        self.destroy_session(session_id)?;\n        Err(Error::protocol(\n            ErrorCode::INVALID_REQUEST,\n            \"Session expired\",\n        ))"),
                  (SS, "        let create_guard = self.create_lock.lock();\n        if self.sessions.len() >= self.config.max_sessions {", "        let create_guard = self.create_lock.lock();\n        let room = self.sessions.len() < self.config.max_sessions;\n        if !room {"),
                  (SS, "        let session = if let Some(session_id) = extract_session_id(headers) {\n            self.manager.validate_session(&session_id).ok()\n        } else {\n            None\n        };", "        let session = extract_session_id(headers).and_then(|id| self.manager.validate_session(&id).ok());")], []),
]

PH = "src/shared/protocol_helpers.rs"
PT = "src/types/protocol.rs"
MW = "src/shared/middleware.rs"
PB = "src/utils/parallel_batch.rs"
BA = "src/shared/batch.rs"
SB = "src/server/batch.rs"
RC = "src/error/recovery.rs"
RN = "src/shared/reconnect.rs"
MUTANTS += [
    ("c03-name", [(PH, 'create_method_params("resources/templates/list", params)', 'create_method_params("resources/templates", params)')], ["C03"]),
    ("c03-swap", [(PH, '("notifications/tools/list_changed".to_string(), None)', '("notifications/prompts/list_changed".to_string(), None)')], ["C03"]),
    ("c03-params", [(PH, "            \"elicitation/elicitInput\".to_string(),\n            Some(serde_json::to_value(params).unwrap()),", "            \"elicitation/elicitInput\".to_string(),\n            { let _ = params; None },")], ["C03"]),
    ("c03-rename", [(PT, '#[serde(rename = "prompts/get")]', '#[serde(rename = "prompts/fetch")]')], ["C03"]),
    ("c03-read", [(PH, '            "method": method,', '            "method": method.trim(),')], ["C03"]),
    ("c03-blank", [(PH, "        Value::Object(members) if members.is_empty() => decode(&Value::Null).map_err(|_| e),\n", "")], ["C03"]),
    ("c03-crossed", [(PH, 'if method == "notifications/cancelled" {', 'if method == "notifications/canceled" {')], ["C03"]),
    ("keep-c03", [(PH, '        ClientRequest::Ping => ("ping".to_string(), None),', '        ClientRequest::Ping => {\n            let method = String::from("ping");\n            (method, None)\n        },'),
                  (PH, "    let params = request.params.unwrap_or(Value::Null);\n\n    // Try to parse as client request first\n    if let Ok(client_req) = parse_client_request(method, &params) {\n        return Ok((id, Request::Client(Box::new(client_req))));\n    }", "    let params = match request.params {\n        Some(p) => p,\n        None => Value::Null,\n    };\n\n    // Try to parse as client request first\n    match parse_client_request(method, &params) {\n        Ok(client_req) => return Ok((id, Request::Client(Box::new(client_req)))),\n        Err(_) => {},\n    }")], []),
    ("c34-swallow", [(MW, "            middleware.on_response(response).await?;\n        }\n        Ok(())\n    }\n\n    /// Process an outgoing", "            if let Err(e) = middleware.on_response(response).await { tracing::warn!(\"{}\", e); }\n        }\n        Ok(())\n    }\n\n    /// Process an outgoing")], ["C34"]),
    ("c34-late", [(MW, "        for middleware in &self.middlewares {\n            middleware.on_send(message).await?;\n        }\n        Ok(())", "        let mut r = Ok(());\n        for middleware in &self.middlewares {\n            if let Err(e) = middleware.on_send(message).await { r = Err(e); }\n        }\n        r")], ["C34"]),
    ("c34-rev", [(MW, "        for middleware in &self.middlewares {\n            middleware.on_receive(message).await?;", "        for middleware in self.middlewares.iter().rev() {\n            middleware.on_receive(message).await?;")], ["C34"]),
    ("c34-front", [(MW, "self.middlewares.push(middleware);", "self.middlewares.insert(0, middleware);")], ["C34"]),
    ("c34-wrong", [(MW, "            middleware.on_receive(message).await?;\n        }\n        Ok(())\n    }\n}", "            middleware.on_send(message).await?;\n        }\n        Ok(())\n    }\n}")], ["C34"]),
    ("c34-skip", [(MW, "        for middleware in &self.middlewares {\n            middleware.on_request(request).await?;", "        for middleware in self.middlewares.iter().take(16) {\n            middleware.on_request(request).await?;")], ["C34"]),
    ("keep-c34", [(MW, "        for middleware in &self.middlewares {\n            middleware.on_request(request).await?;\n        }\n        Ok(())", "        for middleware in self.middlewares.iter() {\n            if let Err(refusal) = middleware.on_request(request).await {\n                return Err(refusal);\n            }\n        }\n        Ok(())"),
                  (MW, "        for middleware in &self.middlewares {\n            middleware.on_send(message).await?;\n        }\n        Ok(())", "        for i in 0..self.middlewares.len() {\n            self.middlewares[i].on_send(message).await?;\n        }\n        Ok(())")], []),
    ("c35-order", [(PB, "    indexed_responses.sort_by_key(|(index, _)| *index);", "    indexed_responses.reverse();")], ["C35"]),
    ("c35-filter", [(PB, "        .map(|(_, response)| response)\n        .collect();\n\n    Ok(responses)", "        .map(|(_, response)| response)\n        .filter(|r| matches!(r.payload, crate::types::jsonrpc::ResponsePayload::Result(_)))\n        .collect();\n\n    Ok(responses)")], ["C35"]),
    ("c35-permit", [(PB, "let _permit = semaphore.acquire().await.unwrap();", "let _ = semaphore.acquire().await.unwrap();")], ["C35"]),
    ("c35-permit2", [(PB, "let _permit = semaphore.acquire().await.unwrap();", "let permit = semaphore.acquire().await.unwrap();\n                drop(permit);")], ["C35"]),
    ("c35-id", [(SB, "id: req.id.clone(),", "id: crate::types::RequestId::from(0i64),")], ["C35"]),
    ("c35-single", [(BA, "1 => Self::Single(responses.into_iter().next().unwrap()),", "1 | 2 => Self::Single(responses.into_iter().next().unwrap()),")], ["C35"]),
    ("keep-c35", [(BA, "        let mut responses = Vec::with_capacity(requests.len());\n        for request in requests {\n            let response = handler(request).await;\n            responses.push(response);\n        }\n        responses", "        let mut answers = Vec::new();\n        for request in requests.into_iter() {\n            answers.push(handler(request).await);\n        }\n        answers"),
                  (PB, "    // Sort by original index to preserve order\n    indexed_responses.sort_by_key(|(index, _)| *index);\n", "    indexed_responses.sort_by(|a, b| a.0.cmp(&b.0));\n")], []),
    ("c37-open", [(RC, "if last_failure.elapsed() >= self.config.timeout {", "if last_failure.elapsed() < self.config.timeout {")], ["C37"]),
    ("c37-open2", [(RC, "                } else {\n                    false\n                }\n            },\n            CircuitState::HalfOpen => true,", "                } else {\n                    true\n                }\n            },\n            CircuitState::HalfOpen => true,")], ["C37"]),
    ("c37-late", [(RC, "                // A late answer to a request from before the circuit opened: it stays open for its time\n", "                *state = CircuitState::Closed;\n")], ["C37"]),
    ("c37-threshold", [(RC, "if *failure_count >= self.config.failure_threshold {", "if *failure_count > self.config.failure_threshold {")], ["C37"]),
    ("c37-threshold2", [(RC, "if *success_count >= self.config.success_threshold {", "if *success_count >= self.config.failure_threshold {")], ["C37"]),
    ("c37-halfopen", [(RC, "            CircuitState::HalfOpen => {\n                *state = CircuitState::Open;\n                *self.last_failure_time.write().await = Some(std::time::Instant::now());\n", "            CircuitState::HalfOpen => {\n                *state = CircuitState::Open;\n")], ["C37"]),
    ("c37-unrecorded", [(RC, "            Err(e) => {\n                cb.record_failure().await;\n                Err(e)", "            Err(e) => {\n                if !matches!(e, Error::Timeout(_)) {\n                    cb.record_failure().await;\n                }\n                Err(e)")], ["C37"]),
    ("c37-ungated", [(RC, "        if !cb.allow_request().await {\n            return Err(self.circuit_open(operation_id));\n        }\n\n        match operation", "        if !cb.allow_request().await && self.policy.log_attempts {\n            return Err(self.circuit_open(operation_id));\n        }\n\n        match operation")], ["C37"]),
    ("c37-one-more", [(RC, "        let mut last_error = error;\n\n        for attempt in 1..=attempts {\n            if self.policy.log_attempts {\n                debug!(\n                    \"Retry", "        let mut last_error = error;\n\n        for attempt in 0..=attempts {\n            if self.policy.log_attempts {\n                debug!(\n                    \"Retry")], ["C37"]),
    ("c37-forever", [(RC, "                Err(e) => {\n                    last_error = e;\n                    if self.policy.log_attempts {\n                        warn!(\"Retry attempt {} failed: {}\", attempt, last_error);\n                    }\n                },", "                Err(e) => {\n                    if matches!(e, Error::Timeout(_)) { let _ = operation().await; }\n                    last_error = e;\n                },")], ["C37"]),
    ("c37-wrong-breaker", [(RC, ".entry(operation_id.to_string())", ".entry(String::new())")], ["C37"]),
    ("c37-retry-limit", [(RN, "self.retry_count.load(Ordering::Relaxed) < max", "self.retry_count.load(Ordering::Relaxed) <= max")], ["C37"]),
    ("c37-retry-reset", [(RN, "        *state = ConnectionState::Disconnected;\n        info!(\"Connection lost\");", "        self.retry_count.store(0, Ordering::Relaxed);\n        *state = ConnectionState::Disconnected;\n        info!(\"Connection lost\");")], ["C37"]),
    ("c37-circuit", [(RN, "                *self.circuit_opened_at.lock().await = Some(Instant::now());\n\n                warn!", "                self.circuit_opened_at.lock().await.get_or_insert_with(Instant::now);\n\n                warn!")], ["C37"]),
    ("c37-recon-unrecorded", [(RN, "                    self.on_connection_failed(&e).await;\n\n                    if", "                    if !matches!(e, Error::Timeout(_)) { self.on_connection_failed(&e).await; }\n\n                    if")], ["C37"]),
    ("keep-c37", [(RC, "        let mut last_error = error;\n\n        for attempt in 1..=attempts {\n            if self.policy.log_attempts {\n                debug!(\n                    \"Retry", "        let mut last_error = error;\n        let mut attempt = 0;\n\n        while attempt < attempts {\n            attempt += 1;\n            if self.policy.log_attempts {\n                debug!(\n                    \"Retry"),
                  (RC, "if last_failure.elapsed() >= self.config.timeout {", "let waited = std::time::Instant::now().duration_since(last_failure);\n                    if !(waited < self.config.timeout) {"),
                  (RC, "        if !cb.allow_request().await {\n            return Err(self.circuit_open(operation_id));\n        }\n\n        match operation", "        let passed = cb.allow_request().await;\n        if !passed {\n            return Err(self.circuit_open(operation_id));\n        }\n\n        match operation"),
                  (RN, "            .map_or(true, |max| self.retry_count.load(Ordering::Relaxed) < max);", "            .is_none_or(|max| max > self.retry_count.load(Ordering::Relaxed));"),
                  (RN, "            if failure_count >= threshold {", "            if threshold <= failure_count {")], []),
    ("keep-c37-2", [(RN, "        loop {\n            if !self.should_reconnect().await {\n                return Err(Error::protocol(\n                    ErrorCode::INTERNAL_ERROR,\n                    \"Reconnection disabled or limit reached\",\n                ));\n            }\n", "        if !self.should_reconnect().await {\n            return Err(Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                \"Reconnection disabled or limit reached\",\n            ));\n        }\n        loop {\n"),
                  (RC, "        match operation().await {\n            Ok(result) => return Ok(result),\n            Err(e) => {\n                last_error = Some(e);\n            },\n        }\n    }", "        let e = match operation().await {\n            Ok(result) => return Ok(result),\n            Err(e) => e,\n        };\n        last_error.replace(e);\n    }"),
                  (RC, "        match *state {\n            CircuitState::Closed => true,\n            CircuitState::Open => {", "        if *state != CircuitState::Open {\n            return true;\n        }\n        match *state {\n            CircuitState::Closed => true,\n            CircuitState::Open => {")], []),
]

RW = "src/server/resource_watcher.rs"
MUTANTS += [
    ("c38-inside", [(RW, "        let Ok(relative_path) = path.strip_prefix(base_dir) else {\n            return false;\n        };", "        let relative_path = path.strip_prefix(base_dir).unwrap_or(path);")], ["C38"]),
    ("c38-order", [(RW, "        // Check ignore patterns first\n        for pattern in ignore_patterns {\n            if glob_match::glob_match(pattern, &path_str) {\n                return false;\n            }\n        }\n\n        // Check include patterns\n        for pattern in patterns {\n            if glob_match::glob_match(pattern, &path_str) {\n                return true;\n            }\n        }\n\n        false", "        for pattern in patterns {\n            if glob_match::glob_match(pattern, &path_str) {\n                return true;\n            }\n        }\n        for pattern in ignore_patterns {\n            if glob_match::glob_match(pattern, &path_str) {\n                return false;\n            }\n        }\n        false")], ["C38"]),
    ("c38-ignore-some", [(RW, "        for pattern in ignore_patterns {\n", "        for pattern in ignore_patterns {\n            if pattern.starts_with('!') {\n                continue;\n            }\n")], ["C38"]),
    ("c38-literal", [(RW, "        for pattern in ignore_patterns {\n", "        if patterns.iter().any(|p| p.as_str() == path_str) {\n            return true;\n        }\n        for pattern in ignore_patterns {\n")], ["C38"]),
    ("c38-all-empty", [(RW, "        false\n    }\n}\n\n/// Builder for creating a resource watcher.", "        patterns.is_empty()\n    }\n}\n\n/// Builder for creating a resource watcher.")], ["C38"]),
    ("c38-unknown", [(RW, "            let known = resources.read().await.contains_key(&uri);\n            if known {", "            let known = resources.read().await.contains_key(&uri);\n            if known || matches!(kind, FileEventKind::Created) {")], ["C38"]),
    ("c38-lost", [(RW, "                if now.duration_since(event.timestamp) >= debounce {\n                    events_to_process.push((path.clone(), event.kind));\n                    false", "                if now.duration_since(event.timestamp) >= debounce {\n                    if events_to_process.len() < 64 {\n                        events_to_process.push((path.clone(), event.kind));\n                    }\n                    false")], ["C38"]),
    ("c38-twice", [(RW, "                    events_to_process.push((path.clone(), event.kind));\n                    false", "                    events_to_process.push((path.clone(), event.kind));\n                    path.is_dir()")], ["C38"]),
    ("c38-early", [(RW, "                if now.duration_since(event.timestamp) >= debounce {", "                if now.duration_since(event.timestamp) >= debounce || matches!(event.kind, FileEventKind::Deleted) {")], ["C38"]),
    ("c38-limit", [(RW, "if resources.len() >= self.config.max_resources {", "if resources.len() > self.config.max_resources {")], ["C38"]),
    ("c38-limit2", [(RW, "        let mut resources = self.resources.write().await;\n\n        if resources.len() >= self.config.max_resources {\n            warn!(\"Resource limit reached, not adding {}\", uri);\n            return Ok(());\n        }\n", "        if self.resources.read().await.len() >= self.config.max_resources {\n            warn!(\"Resource limit reached, not adding {}\", uri);\n            return Ok(());\n        }\n        let mut resources = self.resources.write().await;\n")], ["C38"]),
    ("c38-uri", [(RW, 'let uri = format!("file://{}", path.display());', 'let uri = format!("file://{}", path.parent().unwrap_or(&path).display());')], ["C38"]),
    ("keep-c38", [(RW, "        // Check ignore patterns first\n        for pattern in ignore_patterns {\n            if glob_match::glob_match(pattern, &path_str) {\n                return false;\n            }\n        }\n\n        // Check include patterns\n        for pattern in patterns {\n            if glob_match::glob_match(pattern, &path_str) {\n                return true;\n            }\n        }\n\n        false", "        if ignore_patterns.iter().any(|p| glob_match::glob_match(p, &path_str)) {\n            return false;\n        }\n        patterns.iter().any(|p| glob_match::glob_match(p, &path_str))"),
                  (RW, "            let known = resources.read().await.contains_key(&uri);\n            if known {\n                debug", "            if !resources.read().await.contains_key(&uri) {\n                continue;\n            }\n            {\n                debug"),
                  (RW, "                if now.duration_since(event.timestamp) >= debounce {\n                    events_to_process.push((path.clone(), event.kind));\n                    false\n                } else {\n                    true\n                }", "                let due = now.duration_since(event.timestamp) >= debounce;\n                if due {\n                    events_to_process.push((path.clone(), event.kind));\n                }\n                !due"),
                  (RW, "        if resources.len() >= self.config.max_resources {\n            warn!(\"Resource limit reached, not adding {}\", uri);\n            return Ok(());\n        }\n\n        resources.insert(uri, info);\n        Ok(())", "        if resources.len() < self.config.max_resources {\n            resources.insert(uri, info);\n        } else {\n            warn!(\"Resource limit reached, not adding {}\", uri);\n        }\n        Ok(())")], []),
    ("keep-c38-2", [(RW, "                        for path in event.paths {\n                            // Check if path matches patterns\n                            if !Self::matches_patterns(&path, &base_dir, &patterns, &ignore_patterns) {\n                                continue;\n                            }\n\n                            let file_event", "                        let accepted: Vec<_> = event.paths.into_iter().filter(|p| Self::matches_patterns(p, &base_dir, &patterns, &ignore_patterns)).collect();\n                        for path in accepted {\n                            let file_event")], []),
]

EM = "src/error/mod.rs"
JR = "src/types/jsonrpc.rs"
MUTANTS += [
    ("c39-swap", [(EM, "            -32601 => Some(Self::METHOD_NOT_FOUND),\n            -32602 => Some(Self::INVALID_PARAMS),", "            -32601 => Some(Self::INVALID_PARAMS),\n            -32602 => Some(Self::METHOD_NOT_FOUND),")], ["C39"]),
    ("c39-missing", [(EM, "            -32004 => Some(Self::PERMISSION_DENIED),\n", "")], ["C39"]),
    ("c39-range", [(EM, "matches!(code, -32099..=-32000)", "matches!(code, -32099..=-31000)")], ["C39"]),
    ("c39-range2", [(EM, "matches!(code, -32099..=-32000)", "code <= -32000")], ["C39"]),
    ("c39-order", [(EM, "        // Handle server error range\n", "        if code < 0 && code % 100 == 0 {\n            return Self::INVALID_REQUEST;\n        }\n        // Handle server error range\n")], ["C39"]),
    ("c39-data", [(EM, "            message: error.message,\n            data: error.data,", "            message: error.message,\n            data: error.data.filter(|d| d.is_object()),")], ["C39"]),
    ("c39-message", [(EM, "            message: error.message,\n            data: error.data,", "            message: error.message.trim().to_string(),\n            data: error.data,")], ["C39"]),
    ("c39-encode", [(JR, "                data: data.clone(),\n            },\n            _ =>", "                data: None,\n            },\n            _ =>")], ["C39"]),
    ("c39-encode2", [(JR, "_ => Self::new(-32603, err.to_string()),", "crate::Error::Internal(_) => Self::new(-32603, \"Internal error\"),\n            _ => Self::new(-32603, err.to_string()),")], ["C39"]),
    ("c39-io", [(EM, "        Self::Transport(TransportError::Io(err.to_string()))", "        Self::Transport(TransportError::Io(err.kind().to_string()))")], ["C39"]),
    ("c39-make", [(EM, "            code: ErrorCode::INVALID_PARAMS,\n            message: message.into(),", "            code: ErrorCode::INVALID_REQUEST,\n            message: message.into(),")], ["C39"]),
    ("c39-is", [(EM, "matches!(self, Self::Protocol { code: c, .. } if *c == code)", "matches!(self, Self::Protocol { code: c, .. } if c.as_i32() / 10 == code.as_i32() / 10)")], ["C39"]),
    ("keep-c39", [(EM, "matches!(code, -32099..=-32000)", "(-32099..=-32000).contains(&code)"),
                  (EM, "matches!(self, Self::Protocol { code: c, .. } if *c == code)", "self.error_code() == Some(code)"),
                  (EM, "            -32001 => Some(Self::REQUEST_TIMEOUT),\n", ""),
                  (EM, "    fn mcp_specific_error(code: i32) -> Option<Self> {\n", "    fn mcp_specific_error(code: i32) -> Option<Self> {\n        if code == Self::REQUEST_TIMEOUT.as_i32() {\n            return Some(Self::REQUEST_TIMEOUT);\n        }\n"),
                  (EM, "        Self::Protocol {\n            code: ErrorCode::from_i32(error.code),\n            message: error.message,\n            data: error.data,\n        }", "        let code = ErrorCode::from_i32(error.code);\n        match error.data {\n            Some(data) => Self::protocol_with_data(code, error.message, data),\n            None => Self::protocol(code, error.message),\n        }"),
                  (JR, "        match &err {\n            crate::Error::Protocol {\n                code,\n                message,\n                data,\n            } => Self {\n                code: code.as_i32(),\n                message: message.clone(),\n                data: data.clone(),\n            },\n            _ => Self::new(-32603, err.to_string()),\n        }", "        if let crate::Error::Protocol { code, message, data } = err {\n            return Self { code: code.as_i32(), message, data };\n        }\n        Self::new(-32603, format!(\"{err}\"))")], []),
    ("keep-c39-2", [(EM, "        // Handle server error range\n        if Self::is_server_error_range(code) {\n            return Self::INTERNAL_ERROR;\n        }\n\n        // Default to other\n        Self::other(code)", "        match code {\n            -32099..=-32000 => Self::INTERNAL_ERROR,\n            other => Self(other),\n        }"),
                  (EM, "            Self::Protocol { code, .. } => Some(*code),\n            _ => None,", "            Self::Protocol { code, message: _, data: _ } => Some(code.to_owned()),\n            Self::Transport(_) => None,\n            _ => None,"),
                  (EM, "        Self::Transport(TransportError::Io(err.to_string()))", "        TransportError::from(err).into()")], []),
]

CA = "src/client/auth.rs"
DY = "src/server/dynamic.rs"
ST = "src/server/streamable_http_server.rs"
SI = "src/simd/mod.rs"
MUTANTS += [
    ("c41-status", [(CA, "        if !response.status().is_success() {\n            let error_text = response.text().await.unwrap_or_default();\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                format!(\"Token refresh failed: {}\", error_text),", "        if response.status().is_client_error() {\n            let error_text = response.text().await.unwrap_or_default();\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                format!(\"Token refresh failed: {}\", error_text),")], ["C41"]),
    ("c41-redirect", [(CA, "        if !response.status().is_success() {\n            return Err(Error::protocol(\n                ErrorCode::INTERNAL_ERROR,", "        if !response.status().is_success() && !response.status().is_redirection() {\n            return Err(Error::protocol(\n                ErrorCode::INTERNAL_ERROR,")], ["C41"]),
    ("c41-endless", [(CA, "                        attempts += 1;\n                        tokio::time::sleep", "                        if !matches!(e, Error::Timeout(_)) {\n                            attempts += 1;\n                        }\n                        tokio::time::sleep")], ["C41"]),
    ("c41-unbounded", [(CA, "        while attempts < self.max_retries {", "        loop {")], ["C41"]),
    ("c41-verifier", [(CA, 'params.push(("code_verifier", verifier));', 'params.push(("code_verifier", verifier.trim()));')], ["C41"]),
    ("c41-verifier2", [(CA, "        if let Some(verifier) = code_verifier {\n", "        if let Some(verifier) = code_verifier.filter(|_| client_secret.is_none()) {\n")], ["C41"]),
    ("c41-secret", [(CA, "            request = request.basic_auth(client_id, Some(secret));\n        }\n\n        let response = request.send().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                format!(\"Failed to exchange", "            request = request.basic_auth(client_id, Some(secret)).query(&[(\"client_secret\", secret)]);\n        }\n\n        let response = request.send().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                format!(\"Failed to exchange")], ["C41"]),
    ("c41-default", [(CA, "        response.json::<TokenResponse>().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::PARSE_ERROR,\n                format!(\"Failed to parse token response: {}\", e),\n            )\n        })\n    }\n}", "        Ok(response.json::<TokenResponse>().await.unwrap_or_else(|_| TokenResponse { access_token: String::new(), token_type: \"Bearer\".into(), expires_in: None, refresh_token: Some(refresh_token.to_string()), scope: None }))\n    }\n}")], ["C41"]),
    ("c41-grant", [(CA, '            ("grant_type", "refresh_token"),\n            ("refresh_token", refresh_token),\n            ("client_id", client_id),', '            ("grant_type", "refresh_token"),\n            ("refresh_token", refresh_token),\n            ("client_id", scope.unwrap_or(client_id)),')], ["C41"]),
    ("c41-url", [(CA, "issuer_url.trim_end_matches('/')\n        );\n\n        let mut attempts", "issuer_url.trim_end_matches('/').split('?').next().unwrap_or(issuer_url)\n        );\n\n        let mut attempts")], ["C41"]),
    ("keep-c41", [(CA, "        while attempts < self.max_retries {\n            match self.fetch_discovery(&discovery_url).await {\n                Ok(metadata) => return Ok(metadata),\n                Err(e) => {\n                    // Check if this is a CORS error or network error that should be retried\n                    if self.should_retry(&e) && attempts + 1 < self.max_retries {\n                        attempts += 1;\n                        tokio::time::sleep(self.retry_delay).await;\n                        continue;\n                    }\n                    last_error = Some(e);\n                    break;\n                },\n            }\n        }", "        while attempts < self.max_retries {\n            let e = match self.fetch_discovery(&discovery_url).await {\n                Ok(metadata) => return Ok(metadata),\n                Err(e) => e,\n            };\n            attempts += 1;\n            if !self.should_retry(&e) || attempts >= self.max_retries {\n                last_error = Some(e);\n                break;\n            }\n            tokio::time::sleep(self.retry_delay).await;\n        }"),
                  (CA, "        response.json::<OidcDiscoveryMetadata>().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::PARSE_ERROR,\n                format!(\"Failed to parse discovery document: {}\", e),\n            )\n        })", "        match response.json::<OidcDiscoveryMetadata>().await {\n            Ok(document) => Ok(document),\n            Err(e) => Err(Error::protocol(\n                ErrorCode::PARSE_ERROR,\n                format!(\"Failed to parse discovery document: {}\", e),\n            )),\n        }"),
                  (CA, "        if let Some(s) = scope {\n            params.push((\"scope\", s));\n        }", "        params.extend(scope.map(|s| (\"scope\", s)));")], []),
    ("keep-c41-2", [(CA, "        let mut attempts = 0;\n        let mut last_error = None;\n\n        while attempts < self.max_retries {\n            match self.fetch_discovery(&discovery_url).await {\n                Ok(metadata) => return Ok(metadata),\n                Err(e) => {\n                    // Check if this is a CORS error or network error that should be retried\n                    if self.should_retry(&e) && attempts + 1 < self.max_retries {\n                        attempts += 1;\n                        tokio::time::sleep(self.retry_delay).await;\n                        continue;\n                    }\n                    last_error = Some(e);\n                    break;\n                },\n            }\n        }", "        let mut last_error = None;\n\n        for attempt in 1..=self.max_retries {\n            match self.fetch_discovery(&discovery_url).await {\n                Ok(metadata) => return Ok(metadata),\n                Err(e) => {\n                    let again = self.should_retry(&e) && attempt < self.max_retries;\n                    last_error = Some(e);\n                    if !again {\n                        break;\n                    }\n                    tokio::time::sleep(self.retry_delay).await;\n                },\n            }\n        }"),
                  (CA, "        let mut params = vec![\n            (\"grant_type\", \"refresh_token\"),\n            (\"refresh_token\", refresh_token),\n            (\"client_id\", client_id),\n        ];\n", "        let mut params = Vec::with_capacity(4);\n        params.push((\"client_id\", client_id));\n        params.push((\"grant_type\", \"refresh_token\"));\n        params.push((\"refresh_token\", refresh_token));\n"),
                  (CA, "        let mut request = self.client\n            .post(token_endpoint)\n            .header(\"Accept\", \"application/json\")  // Explicitly set Accept header\n            .form(&params);\n\n        // Add client authentication if secret is provided\n        if let Some(secret) = client_secret {\n            request = request.basic_auth(client_id, Some(secret));\n        }\n\n        let response = request.send().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                format!(\"Failed to exchange", "        let base = self.client.post(token_endpoint).header(\"Accept\", \"application/json\");\n        let request = match client_secret {\n            Some(_) => base.basic_auth(client_id, client_secret),\n            None => base,\n        };\n        let request = request.form(&params);\n\n        let response = request.send().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                format!(\"Failed to exchange")], []),
    ("c43-frame", [(SM, "        self.resources = Some(Arc::new(handler));\n        self\n", "        self.resources = Some(Arc::new(handler));\n        self.tools.remove(\"resources/read\");\n        self\n")], ["C43"]),
    ("c43-caps", [(SM, "        self.capabilities.sampling = Some(crate::types::SamplingCapabilities::default());", "        self.capabilities = ServerCapabilities { sampling: Some(crate::types::SamplingCapabilities::default()), ..Default::default() };")], ["C43"]),
    ("c43-caps2", [(SM, "        self.capabilities.sampling = Some(crate::types::SamplingCapabilities::default());", "        if self.capabilities.tools.is_some() {\n            self.capabilities.sampling = Some(crate::types::SamplingCapabilities::default());\n        }")], ["C43"]),
    ("c43-trim", [(SM, "        self.name = Some(name.into());", "        self.name = Some(name.into().trim().to_string());")], ["C43"]),
    ("c43-version", [(SM, "info: Implementation { name, version }", "info: Implementation { version: format!(\"{}-{}\", name, version), name }")], ["C43"]),
    ("c43-told", [(DY, "        self.update_capabilities(|caps| {\n            caps.resources = None;", "        self.update_capabilities(|caps| {\n            caps.resources = None;\n            caps.tools = None;")], ["C43"]),
    ("c43-told2", [(DY, "            listener(&caps);", "            if caps.tools.is_some() {\n                listener(&caps);\n            }")], ["C43"]),
    ("c43-remove", [(DY, "        if self.dynamic_prompts.write().await.remove(name).is_none() {", "        if self.dynamic_prompts.write().await.remove(name).is_none() && !self.server.has_prompt(name) {")], ["C43"]),
    ("c43-wrong", [(DY, "        *self.dynamic_sampling.write().await = None;", "        if self.server.capabilities.sampling.is_some() {\n            *self.dynamic_sampling.write().await = None;\n        }")], ["C43"]),
    ("c43-has", [(DY, "self.dynamic_prompts.read().await.contains_key(name) || self.server.has_prompt(name)", "self.dynamic_prompts.read().await.contains_key(name) || self.server.has_tool(name)")], ["C43"]),
    ("c43-reload", [(DY, "        self.dynamic_prompts.write().await.clear();\n", "        if !config.prompts.is_empty() {\n            self.dynamic_prompts.write().await.clear();\n        }\n")], ["C43"]),
    ("c43-reload2", [(DY, "            self.add_tool(name, tool.handler, tool.info).await?;", "            self.add_tool(tool.info.name.clone(), tool.handler, tool.info).await?;")], ["C43"]),
    ("c43-reload3", [(DY, "        for (name, tool) in config.tools {\n", "        for (name, tool) in config.tools {\n            if self.server.has_tool(&name) {\n                continue;\n            }\n")], ["C43"]),
    ("keep-c43", [(SM, "        self.tools.insert(name.into(), Arc::new(handler));\n        self\n", "        let mut tools = self.tools;\n        tools.insert(name.into(), Arc::new(handler));\n        Self { tools, ..self }\n"),
                  (SM, "        self.capabilities.sampling = Some(crate::types::SamplingCapabilities::default());\n        self\n", "        Self {\n            capabilities: ServerCapabilities {\n                sampling: Some(crate::types::SamplingCapabilities::default()),\n                ..self.capabilities\n            },\n            ..self\n        }\n"),
                  (DY, "        if self.dynamic_tools.write().await.remove(name).is_none() {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                format!(\"Tool '{}' not found\", name),\n            ));\n        }", "        let removed = self.dynamic_tools.write().await.remove(name);\n        let _gone = removed.ok_or_else(|| {\n            Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                format!(\"Tool '{}' not found\", name),\n            )\n        })?;"),
                  (DY, "        self.dynamic_prompts.read().await.contains_key(name) || self.server.has_prompt(name)", "        if self.server.has_prompt(name) {\n            return true;\n        }\n        self.dynamic_prompts.read().await.contains_key(name)")], []),
    ("keep-c43-2", [(DY, "        let mut caps = self.server.capabilities.clone();\n        updater(&mut caps);\n\n        // Notify listeners\n        let listeners = self.capability_listeners.read().await;\n        for listener in listeners.iter() {\n            listener(&caps);\n        }", "        let caps = {\n            let mut next = self.server.capabilities.clone();\n            updater(&mut next);\n            next\n        };\n        self.capability_listeners\n            .read()\n            .await\n            .iter()\n            .for_each(|listener| listener(&caps));"),
                  (DY, "        self.dynamic_tools.write().await.clear();\n        self.dynamic_prompts.write().await.clear();\n\n        // Apply new configuration\n        for (name, tool) in config.tools {\n            self.add_tool(name, tool.handler, tool.info).await?;\n        }\n\n        for (name, prompt) in config.prompts {\n            self.add_prompt(name, prompt.handler, prompt.info).await?;\n        }", "        self.dynamic_tools.write().await.clear();\n        for (name, tool) in config.tools {\n            let DynamicTool { handler, info } = tool;\n            self.add_tool(name, handler, info).await?;\n        }\n\n        self.dynamic_prompts.write().await.clear();\n        for (name, prompt) in config.prompts {\n            self.add_prompt(name, prompt.handler, prompt.info).await?;\n        }"),
                  (SM, "        let name = self\n            .name\n            .ok_or_else(|| crate::Error::validation(\"Server name is required\"))?;\n", "        let Some(name) = self.name else {\n            return Err(crate::Error::validation(\"Server name is required\"));\n        };\n")], []),
]
BT = "src/utils/batching.rs"
MUTANTS += [
    ("c27-full", [(ND, "                } else if let Some(newest) = existing.mergeable.last_mut() {\n                    // No room left: the latest notification supersedes the one before it\n                    *newest = notification;\n                } else {\n                    existing.notification = notification;\n                }\n", "                }\n")], ["C27"]),
    ("c27-abort", [(BT, "            if let Ok(permit) = tx.reserve().await {\n                let notification = pending.lock().await.remove(&key_clone);\n\n                if let Some(notification) = notification {\n                    debug!(\"Sending debounced notification: {}\", key_clone);\n                    permit.send(notification);\n                }\n            }\n", "            let notification = pending.lock().await.remove(&key_clone);\n\n            if let Some(notification) = notification {\n                debug!(\"Sending debounced notification: {}\", key_clone);\n                let _ = tx.send(notification).await;\n            }\n")], ["C27"]),
    ("c27-merged", [(ND, "        // Send any merged notifications\n        for merged in pending_notif.mergeable {\n            let _ = output_tx.send(merged).await;\n        }\n", "")], ["C27"]),
    ("c27-merged2", [(ND, "        for merged in pending_notif.mergeable {\n            if let Err(e)", "        for merged in pending_notif.mergeable.into_iter().take(config.max_batch_size / 2) {\n            if let Err(e)")], ["C27"]),
    ("c27-retain", [(ND, "                to_flush.push(pending_notif.clone());\n                false // Remove from pending", "                if pending_notif.count > 0 {\n                    to_flush.push(pending_notif.clone());\n                }\n                false // Remove from pending")], ["C27"]),
    ("c27-twice", [(ND, "                to_flush.push(pending_notif.clone());\n                false // Remove from pending", "                to_flush.push(pending_notif.clone());\n                pending_notif.count > 1000")], ["C27"]),
    ("c27-key", [(ND, 'format!("resource_updated:{}", params.uri)', 'format!("resource_updated:{}", params.uri.split(\'?\').next().unwrap_or_default())')], ["C27"]),
    ("c27-key2", [(ND, 'format!("log:{:?}:{:?}", params.logger, params.level)', 'format!("log:{:?}", params.logger)')], ["C27"]),
    ("c27-key3", [(ND, '"tool_list_changed".to_string()', '"prompt_list_changed".to_string()')], ["C27"]),
    ("c27-super", [(ND, "            if self.config.enable_merging {\n", "            if self.config.enable_merging && existing.count < 1000 {\n")], ["C27"]),
    ("c27-final", [(ND, "            // Final flush on shutdown\n            flush_all(&pending, &output_tx).await;\n", "            // Final flush on shutdown\n            flush_pending(&pending, &output_tx, &config).await;\n")], ["C27"]),
    ("c27-timer", [(ND, "        } else {\n            // Schedule timeout for this batch\n", "        } else if batch.len() == 1 && self.batch_timeout > Duration::from_millis(1) {\n            // Schedule timeout for this batch\n")], ["C27"]),
    ("c27-lost", [(ND, "                    if !batch.is_empty() {\n                        let _ = output_tx.send(batch).await;\n                    }\n                }\n            });", "                    if batch.len() > 1 {\n                        let _ = output_tx.send(batch).await;\n                    }\n                }\n            });")], ["C27"]),
    ("c27-mb", [(BT, "                if !pending_guard.is_empty() {\n                    let batch = std::mem::take(&mut *pending_guard);\n                    drop(pending_guard);\n                    if tx.send(batch).await.is_err() {\n                        break;\n                    }", "                if !pending_guard.is_empty() {\n                    let batch = std::mem::take(&mut *pending_guard);\n                    drop(pending_guard);\n                    if tx.is_closed() || (tx.capacity() > 0 && tx.send(batch).await.is_err()) {\n                        break;\n                    }")], ["C27"]),
    ("c27-flush", [(BT, "        pending.drain().map(|(_, v)| v).collect()", "        pending.drain().filter(|(k, _)| !k.is_empty()).map(|(_, v)| v).collect()")], ["C27"]),
    ("c27-otherkey", [(BT, "pending.lock().await.remove(&key_clone);\n\n                if let Some", "pending.lock().await.remove(key_clone.trim());\n\n                if let Some")], ["C27"]),
    ("c27-keyed", [(BT, "            pending.insert(key.clone(), notification);", "            pending.insert(key.to_lowercase(), notification);")], ["C27"]),
    ("c27-select", [(ND, "                    _ = interval.tick() => {\n                        flush_pending(&pending, &output_tx, &config).await;\n                    }", "                    _ = async {\n                        interval.tick().await;\n                        flush_pending(&pending, &output_tx, &config).await;\n                    } => {}")], ["C27"]),
    ("keep-c27", [(ND, "        if let Some(existing) = pending.get_mut(&key) {\n            // Update existing notification\n            existing.last_updated = now;\n            existing.count += 1;\n\n            if self.config.enable_merging {\n", "        if let Some(existing) = pending.get_mut(&key) {\n            existing.count += 1;\n            existing.last_updated = now;\n\n            let merge = self.config.enable_merging;\n            if merge {\n"),
                  (ND, "            if should_flush {\n                to_flush.push(pending_notif.clone());\n                false // Remove from pending\n            } else {\n                true // Keep in pending\n            }\n", "            if should_flush {\n                to_flush.push(pending_notif.clone());\n            }\n            !should_flush\n"),
                  (ND, "    let to_flush = std::mem::take(&mut *pending.write().await);\n\n    for (_, pending_notif) in to_flush {\n        // Send the main notification\n        let _ = output_tx.send(pending_notif.notification).await;\n\n        // Send any merged notifications\n        for merged in pending_notif.mergeable {\n            let _ = output_tx.send(merged).await;\n        }\n    }", "    let taken: Vec<_> = pending.write().await.drain().collect();\n\n    for (_, PendingNotification { notification, mergeable, .. }) in taken {\n        let _ = output_tx.send(notification).await;\n        for merged in mergeable {\n            let _ = output_tx.send(merged).await;\n        }\n    }"),
                  (BT, "        if pending.len() >= self.config.max_batch_size {\n            let batch = std::mem::take(&mut *pending);\n            drop(pending);\n            self.tx\n                .send(batch)\n                .await\n                .map_err(|_| crate::error::Error::Internal(\"Failed to send batch\".to_string()))?;\n        } else {\n            drop(pending);\n        }\n\n        Ok(())", "        if pending.len() < self.config.max_batch_size {\n            return Ok(());\n        }\n        let batch: Vec<_> = pending.drain(..).collect();\n        drop(pending);\n        if self.tx.send(batch).await.is_err() {\n            return Err(crate::error::Error::Internal(\"Failed to send batch\".to_string()));\n        }\n        Ok(())")], []),
    ("keep-c27-2", [(ND, "                let batch = batches_clone.write().await.remove(&key);\n                if let Some(batch) = batch {\n                    if !batch.is_empty() {\n                        let _ = output_tx.send(batch).await;\n                    }\n                }\n", "                let batch = batches_clone.write().await.remove(&key).unwrap_or_default();\n                if batch.is_empty() {\n                    return;\n                }\n                let _ = output_tx.send(batch).await;\n"),
                  (ND, "            let full_batch = std::mem::take(batch);\n            drop(batches);\n", "            let full_batch = std::mem::replace(batch, Vec::new());\n            drop(batches);\n"),
                  (BT, "        // Get all pending notifications\n        let mut pending = self.pending.lock().await;\n        pending.drain().map(|(_, v)| v).collect()", "        // Get all pending notifications\n        let all = std::mem::take(&mut *self.pending.lock().await);\n        let mut out = Vec::with_capacity(all.len());\n        for (_, notification) in all {\n            out.push(notification);\n        }\n        out")], []),
]

SP = "src/shared/sse_parser.rs"
CX = "src/shared/context.rs"
JS = "src/utils/json_simd.rs"
UT = "src/shared/uri_template.rs"
MUTANTS += [
    ("c42-crlf", [(SP, "            let line = &self.buffer[..line_end];\n            let line = line.strip_suffix('\\r').unwrap_or(line).to_string();\n", "            let line = if self.buffer.ends_with('\\n') && line_end > 0 {\n                self.buffer[..line_end - 1].to_string()\n            } else {\n                self.buffer[..line_end].to_string()\n            };\n")], ["C42"]),
    ("c42-crlf2", [(SP, "            let line = line.strip_suffix('\\r').unwrap_or(line).to_string();\n", "            let line = if line.chars().nth(line_end - 1) == Some('\\r') { line[..line_end - 1].to_string() } else { line.to_string() };\n")], ["C42"]),
    ("c42-stale", [(SP, "            self.buffer.drain(..=line_end);\n", "            if self.buffer.starts_with('\\u{feff}') {\n                self.buffer.remove(0);\n            }\n            self.buffer.drain(..=line_end);\n")], ["C42"]),
    ("c42-span", [(CX, "self.span_id.replace('-', \"\").chars().take(16).collect::<String>();", "self.span_id.replace('-', \"\");\n        let span_id_hex = &span_id_hex[..span_id_hex.len().min(16)];")], ["C42"]),
    ("c42-ascii", [(CX, "if span_id_hex.len() == 16 && span_id_hex.is_ascii() {", "if span_id_hex.len() == 16 {")], ["C42"]),
    ("c42-short", [(CX, "if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {", "if trace_id_hex.len() >= 20 && trace_id_hex.is_ascii() {")], ["C42"]),
    ("c42-ascii2", [(CX, "if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {", "if trace_id_hex.len() == 32 && traceparent.is_ascii() {")], []),
    ("c42-char", [(JS, "                } else {\n                    result.push(byte);\n                }\n            }\n", "                } else {\n                    let mut buf = [0u8; 4];\n                    result.extend_from_slice((byte as char).encode_utf8(&mut buf).as_bytes());\n                }\n            }\n")], ["C42"]),
    ("c42-tab", [(JS, "                if !in_string {\n", "                if byte == 0x7f {\n                    continue;\n                }\n                if !in_string {\n")], ["C42"]),
    ("c42-frame", [(HTC, "String::from_utf8_lossy(&lines)", "String::from_utf8_lossy(data)")], ["C42"]),
    ("c42-frame2", [(HTC, "received.iter().rposition(|b| *b == b'\\n').map_or(0, |i| i + 1)", "received.iter().rposition(|b| *b >= b'\\n').map_or(0, |i| i + 1)")], ["C42"]),
    ("c42-first", [(UT, "'&' => (Operator::QueryContinuation, &expr[1..]),", "'&' | '§' => (Operator::QueryContinuation, &expr[1..]),")], ["C42"]),
    ("c42-colon", [(UT, "        if let Some(colon_pos) = spec.find(':') {", "        if let Some(colon_pos) = spec.find([':', '：']) {")], ["C42"]),
    ("c42-parse", [(JS, "        // Whitespace separates tokens, so the input is parsed as it is\n        serde_json::from_slice(input)", "        let trimmed: Vec<u8> = input.iter().copied().filter(|b| !b.is_ascii_whitespace()).collect();\n        serde_json::from_slice(&trimmed)")], ["C42"]),
    ("keep-c42", [(SP, "        while let Some(line_end) = self.buffer.find('\\n') {\n", "        while let Some(line_end) = self.buffer.as_bytes().iter().position(|&b| b == b'\\n') {\n"),
                  (SP, "        let (field, value) = if let Some(colon_pos) = line.find(':') {\n            let field = &line[..colon_pos];\n            let value = &line[colon_pos + 1..];\n            // Remove", "        let (field, value) = if let Some((field, value)) = line.split_once(':') {\n            // Remove"),
                  (CX, "if span_id_hex.len() == 16 && span_id_hex.is_ascii() {", "if span_id_hex.is_ascii() && span_id_hex.len() == 16 {")], []),
    ("keep-c42-2", [(SP, "            let line = &self.buffer[..line_end];\n            let line = line.strip_suffix('\\r').unwrap_or(line).to_string();\n\n            if let Some(event) = self.process_line(&line) {\n                events.push(event);\n            }\n\n            self.buffer.drain(..=line_end);\n", "            let mut line: String = self.buffer.drain(..line_end + 1).collect();\n            line.pop();\n            if line.ends_with('\\r') {\n                line.pop();\n            }\n            events.extend(self.process_line(&line));\n"),
                  (UT, "            '+' => (Operator::Reserved, &expr[1..]),", "            '+' => (Operator::Reserved, expr.strip_prefix('+').unwrap_or(expr)),"),
                  (JS, "                        b'{' | b'[' => {\n                            result.push(byte);\n                            indent += 2;\n                            result.push(b'\\n');\n                            result.extend(std::iter::repeat(b' ').take(indent));\n", "                        b'{' | b'[' => {\n                            indent += 2;\n                            result.push(byte);\n                            result.push(b'\\n');\n                            result.resize(result.len() + indent, b' ');\n"),
                  (UT, "        let first_char = expr.chars().next().unwrap();\n        let (operator, vars_str) = match first_char {", "        let Some(first_char) = expr.chars().next() else {\n            return Err(Error::Validation(\"Empty template expression\".into()));\n        };\n        let (operator, vars_str) = match first_char {")], []),
    ("keep-c42-3", [(SP, "            let line = &self.buffer[..line_end];\n            let line = line.strip_suffix('\\r').unwrap_or(line).to_string();\n", "            let line = Self::cut(&self.buffer, line_end);\n"),
                    (SP, "    /// Process a single line and potentially emit an event.\n", "    /// The line that ends at `end`\n    fn cut(text: &str, end: usize) -> String {\n        let line = &text[..end];\n        line.strip_suffix('\\r').unwrap_or(line).to_string()\n    }\n\n    /// Process a single line and potentially emit an event.\n")], []),
    ("c23-alloc", [("src/shared/stdio.rs", "        let mut buffer = Vec::new();\n        (&mut *stdin)", "        let mut buffer = Vec::with_capacity(content_length);\n        (&mut *stdin)")], ["C23"]),
    ("c23-alloc2", [("src/shared/stdio.rs", "        let mut buffer = Vec::new();\n        (&mut *stdin)\n            .take(content_length as u64)\n            .read_to_end(&mut buffer)\n            .await", "        let mut buffer = vec![0u8; content_length];\n        (&mut *stdin)\n            .read_exact(&mut buffer)\n            .await")], ["C23"]),
    ("c23-cookie", [(SS, "            if parts.len() == 2 && parts[0] == \"mcp-session-id\" {", "            if parts[0] == \"mcp-session-id\" {")], ["C23"]),
    ("c23-cookie2", [(SS, "            if parts.len() == 2 && parts[0] == \"mcp-session-id\" {", "            if parts.len() >= 1 && parts[0] == \"mcp-session-id\" {")], ["C23"]),
    ("c23-parent", [(CX, "            if parts.len() >= 4 {", "            if parts.len() >= 2 {")], ["C23"]),
    ("c23-hex", [(CX, "if span_id_hex.len() == 16 && span_id_hex.is_ascii() {", "if span_id_hex.is_ascii() {")], ["C42"]),
    ("c23-baggage", [(CX, "                    if key.starts_with(\"baggage-\") {", "                    if key.to_lowercase().starts_with(\"baggage-\") {")], ["C23"]),
    ("c23-replay", [(ST, "stream_events[pos + 1..].iter().cloned()", "stream_events[pos + 2..].iter().cloned()")], ["C23"]),
    ("c23-length", [("src/shared/stdio.rs", "            .and_then(|content| content.trim().parse().ok())", "            .map(|content| content.trim().parse().unwrap())")], ["C23"]),
    ("c23-single", [(BA, "            0 => Self::Batch(vec![]),\n            1 => Self::Single(", "            0 | 1 => Self::Single(")], ["C23"]),
    ("c23-initialize", [(SM, "                if matches!(**boxed_req, ClientRequest::Initialize(_)) =>", "                if matches!(**boxed_req, ClientRequest::Initialize(ref init) if !init.client_info.name.is_empty()) =>")], ["C23"]),
    ("c23-template", [(UT, "        let first_char = expr.chars().next().unwrap();", "        let first_char = expr.trim().chars().next().unwrap();")], ["C23"]),
    ("c23-params", [(PH, "    decode(params).or_else(|e| match params {\n        Value::Null", "    if params[\"_meta\"].is_object() {\n        assert!(params[\"_meta\"].as_object().unwrap().contains_key(\"progressToken\"), \"meta\");\n    }\n    decode(params).or_else(|e| match params {\n        Value::Null")], ["C23"]),
    ("c23-header", [(ST, "sid.parse().unwrap());\n            }\n\n            // Add protocol", "sid.parse().unwrap());\n            }\n            if let Some(origin) = headers.get(\"x-request-tag\") {\n                let tag = String::from_utf8_lossy(origin.as_bytes()).to_string();\n                response.headers_mut().insert(\"x-request-tag\", tag.parse().unwrap());\n            }\n\n            // Add protocol")], ["C23"]),
    ("keep-c23", [(SS, "            let parts: Vec<&str> = cookie.trim().splitn(2, '=').collect();\n            if parts.len() == 2 && parts[0] == \"mcp-session-id\" {\n                return Some(parts[1].to_string());\n            }", "            if let Some((\"mcp-session-id\", value)) = cookie.trim().split_once('=') {\n                return Some(value.to_string());\n            }"),
                  (CX, "            if parts.len() >= 4 {", "            if parts.len() > 3 {"),
                  (CX, "                    if key.starts_with(\"baggage-\") {\n                        let baggage_key = key.strip_prefix(\"baggage-\").unwrap();", "                    if let Some(baggage_key) = key.strip_prefix(\"baggage-\") {"),
                  (ST, "stream_events[pos + 1..].iter().cloned()", "stream_events.iter().skip(pos + 1).cloned()"),
                  (BA, "            1 => Self::Single(responses.into_iter().next().unwrap()),", "            1 => match responses.into_iter().next() {\n                Some(only) => Self::Single(only),\n                None => unreachable!(\"one response\"),\n            },")], []),
    ("keep-c23-2", [(CX, "            if parts.len() >= 4 {", "            let complete = parts.len() >= 4;\n            if complete {"),
                  (SS, "            let parts: Vec<&str> = cookie.trim().splitn(2, '=').collect();\n            if parts.len() == 2 && parts[0] == \"mcp-session-id\" {\n                return Some(parts[1].to_string());\n            }", "            let parts: Vec<&str> = cookie.trim().splitn(2, '=').collect();\n            if let [name, value] = parts[..] {\n                if name == \"mcp-session-id\" {\n                    return Some(value.to_string());\n                }\n            }"),
                  (ST, "            if let Some(pos) = stream_events.iter().position(|(id, _)| id == last_event_id) {\n                result.extend(stream_events[pos + 1..].iter().cloned());\n            }", "            let start = match stream_events.iter().position(|(id, _)| id == last_event_id) {\n                Some(pos) => pos + 1,\n                None => stream_events.len(),\n            };\n            result.extend_from_slice(&stream_events[start..]);"),
                  (RO, "                if let Some(pos) = roots_guard.iter().position(|r| r.uri == uri) {\n                    roots_guard.remove(pos);", "                let found = roots_guard.iter().position(|r| r.uri == uri);\n                if found.is_some() {\n                    roots_guard.remove(found.unwrap());"),
                  (EV, "            .map_or(0, |idx| idx + 1);\n\n        let limit", "            .map(|idx| idx + 1)\n            .unwrap_or(0);\n\n        let limit")], []),
    ("c36-guard", [(JS, "    // Runtime feature detection\n    if is_x86_feature_detected!(\"avx2\") {", "    // Runtime feature detection\n    if cfg!(target_arch = \"x86_64\") {")], ["C36"]),
    ("c36-feature", [(JS, "        if is_x86_feature_detected!(\"avx2\") {\n            let compact", "        if is_x86_feature_detected!(\"sse4.2\") {\n            let compact")], ["C36"]),
    ("c36-or", [(JS, "    // Runtime feature detection for AVX2\n    if is_x86_feature_detected!(\"avx2\") {", "    // Runtime feature detection for AVX2\n    if is_x86_feature_detected!(\"avx2\") || input.len() < 32 {")], ["C36"]),
    ("c36-loop", [(SI, "while i + 32 <= len && is_ascii_chunk", "while i + 16 <= len && is_ascii_chunk")], ["C36"]),
    ("c36-chunks", [(SI, "        // Process 32 bytes at a time with AVX2\n        let chunks = len / 32;", "        // Process 32 bytes at a time with AVX2\n        let chunks = len.div_ceil(32);")], ["C36"]),
    ("c36-inclusive", [(SI, "        let chunks = len / 32;\n        for i in 0..chunks {\n            let offset = i * 32;\n            let data = _mm256_loadu_si256(input", "        let chunks = len / 32;\n        for i in 0..=chunks {\n            let offset = i * 32;\n            let data = _mm256_loadu_si256(input")], ["C36"]),
    ("c36-lanes", [(SI, "let chunks = lengths.len() / 8;", "let chunks = lengths.len() / 4;")], ["C36"]),
    ("c36-copy", [(SI, "        assert!(dst.len() >= src.len());\n", "        debug_assert!(!dst.is_empty() || src.is_empty());\n")], ["C36"]),
    ("c36-needle", [(SI, "        let chunks = (haystack.len() - needle.len() + 1) / 32;", "        let chunks = (haystack.len() + needle.len()) / 32;")], ["C36"]),
    ("c36-mask", [(SI, "            mask[1], mask[2], mask[3], mask[0], mask[1], mask[2], mask[3], mask[0], mask[1],\n", "")], ["C36"]),
    ("c36-run", [(SI, "            if i + 32 <= len {\n                let current_vec", "            if len >= 32 {\n                let current_vec")], ["C36"]),
    ("c36-new-caller", [("src/shared/sse_parser.rs", "        self.buffer.push_str(data);", "        #[allow(unsafe_code)]\n        let _quotes = unsafe { crate::simd::json::find_escapes_simd(data.as_bytes()) };\n        self.buffer.push_str(data);")], ["C36"]),
    ("c36-unchecked", [("src/shared/stdio.rs", "        let mut buffer = Vec::new();\n        (&mut *stdin)", "        let mut buffer: Vec<u8> = Vec::with_capacity(4096);\n        #[allow(unsafe_code)]\n        unsafe {\n            buffer.set_len(0)\n        };\n        (&mut *stdin)")], ["C36"]),
    ("keep-c36", [(JS, "    // Runtime feature detection\n    if is_x86_feature_detected!(\"avx2\") {", "    // Runtime feature detection\n    let wide = is_x86_feature_detected!(\"avx2\");\n    if wide && !json.is_empty() {"),
                  (SI, "        while i + 32 <= len && is_ascii_chunk(input, i) {\n            i += 32;\n        }", "        while len - i >= 32 {\n            if !is_ascii_chunk(input, i) {\n                break;\n            }\n            i += 32;\n        }"),
                  (SI, "        let chunks = lengths.len() / 8;\n\n        for i in 0..chunks {\n            let offset = i * 8;\n", "        let chunks = lengths.len() / 8;\n\n        for offset in (0..chunks).map(|i| i * 8) {\n"),
                  (SI, "        // Process 32 bytes at a time with AVX2\n        let chunks = len / 32;", "        // Process 32 bytes at a time with AVX2\n        let chunks = (len - len % 32) / 32;")], []),
    ("keep-c36-2", [(SI, "        let chunks = len / 32;\n        for i in 0..chunks {\n            let offset = i * 32;\n            let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);\n\n            let backslash_mask", "        let chunks = len / 32;\n        for (i, chunk) in input.chunks_exact(32).enumerate() {\n            let offset = i * 32;\n            let data = _mm256_loadu_si256(chunk.as_ptr() as *const __m256i);\n\n            let backslash_mask"),
                  (JS, "    // Runtime feature detection for AVX2\n    if is_x86_feature_detected!(\"avx2\") {", "    // Runtime feature detection for AVX2\n    if has_avx2() {"),
                  (JS, "pub fn parse_json_fast<", "fn has_avx2() -> bool {\n    is_x86_feature_detected!(\"avx2\")\n}\n\n/// Parses JSON\npub fn parse_json_fast<"),
                  (SI, "            let offset = i * 32;\n            let data_vec = _mm256_loadu_si256(data.as_ptr().add(offset) as *const __m256i);\n            let result = _mm256_xor_si256(data_vec, mask_vec);\n            _mm256_storeu_si256(data.as_mut_ptr().add(offset) as *mut __m256i, result);", "            let at = data.as_mut_ptr().add(i * 32);\n            let data_vec = _mm256_loadu_si256(at as *const __m256i);\n            let result = _mm256_xor_si256(data_vec, mask_vec);\n            _mm256_storeu_si256(at as *mut __m256i, result);")], []),
    ("c26-elicit", [("src/server/elicitation.rs", "            let mut pending = self.pending.write().await;\n            if pending.contains_key(&request.elicitation_id) {", "            let known = self.pending.read().await.contains_key(&request.elicitation_id);\n            let mut pending = self.pending.write().await;\n            if known {")], ["C26"]),
    ("c26-breaker", [("src/error/recovery.rs", "        let mut state = self.state.write().await;\n\n        match *state {\n            CircuitState::Closed => {\n                let mut failure_count", "        let seen = *self.state.read().await;\n        let mut state = self.state.write().await;\n\n        match seen {\n            CircuitState::Closed => {\n                let mut failure_count")], ["C26"]),
    ("c26-breakers", [("src/error/recovery.rs", "            let mut breakers = self.circuit_breakers.write().await;\n            breakers\n                .entry(operation_id.to_string())\n                .or_insert_with(|| {\n                    Arc::new(CircuitBreaker::new(CircuitBreakerConfig {\n                        failure_threshold,\n                        success_threshold,\n                        timeout,\n                    }))\n                })\n                .clone()\n", "            let known = self.circuit_breakers.read().await.get(operation_id).cloned();\n            match known {\n                Some(breaker) => breaker,\n                None => {\n                    let breaker = Arc::new(CircuitBreaker::new(CircuitBreakerConfig {\n                        failure_threshold,\n                        success_threshold,\n                        timeout,\n                    }));\n                    self.circuit_breakers\n                        .write()\n                        .await\n                        .insert(operation_id.to_string(), breaker.clone());\n                    breaker\n                },\n            }\n")], ["C26"]),
    ("c26-debounce", [("src/utils/batching.rs", "        let mut timers = self.timers.lock().await;\n        if let Some(handle) = timers.remove(&key) {\n            handle.abort();\n        }\n", "        if let Some(handle) = self.timers.lock().await.remove(&key) {\n            handle.abort();\n        }\n"), ("src/utils/batching.rs", "        timers.insert(key, handle);\n", "        self.timers.lock().await.insert(key, handle);\n")], ["C26"]),
    ("c26-counter", [("src/shared/reconnect.rs", "        let failure_count = self.failure_count.fetch_add(1, Ordering::Relaxed) + 1;", "        let failure_count = self.failure_count.load(Ordering::Relaxed) + 1;\n        self.failure_count.store(failure_count, Ordering::Relaxed);")], ["C26"]),
    ("c26-sse", [("src/shared/streamable_http.rs", "        let replaced = self.abort_handle.write().replace(handle);\n        if let Some(other) = replaced {\n            other.abort();\n        }\n", "        *self.abort_handle.write() = Some(handle);\n")], ["C26"]),
    ("c26-reconnect", [("src/shared/reconnect.rs", "        let mut state = self.state.write().await;\n        if *state == ConnectionState::Connected {", "        let seen = *self.state.read().await;\n        let mut state = self.state.write().await;\n        if seen == ConnectionState::WaitingRetry {\n            return;\n        }\n        if *state == ConnectionState::Connected {")], ["C26"]),
    ("keep-c26", [("src/server/elicitation.rs", "            if pending.contains_key(&request.elicitation_id) {\n                return Err(Error::protocol(\n                    ErrorCode::INVALID_REQUEST,\n                    \"Elicitation ID is already pending\",\n                ));\n            }\n            pending.insert(request.elicitation_id.clone(), tx);", "            match pending.entry(request.elicitation_id.clone()) {\n                std::collections::hash_map::Entry::Occupied(_) => {\n                    return Err(Error::protocol(\n                        ErrorCode::INVALID_REQUEST,\n                        \"Elicitation ID is already pending\",\n                    ))\n                },\n                std::collections::hash_map::Entry::Vacant(slot) => {\n                    slot.insert(tx);\n                },\n            }"),
                  ("src/shared/reconnect.rs", "        let mut state = self.state.write().await;\n        if *state == ConnectionState::Connected {", "        debug!(\"Was {:?}\", *self.state.read().await);\n        let mut state = self.state.write().await;\n        if *state == ConnectionState::Connected {")], []),
]

MUTANTS += [
    ("c21-let", [(C, "                    self.send_notification(Notification::Client(ClientNotification::Initialized))\n                        .await?;", "                    let _ = self.send_notification(Notification::Client(ClientNotification::Initialized))\n                        .await;")], ["C21"]),
    ("c21-log", [(C, "                    self.send_notification(Notification::Client(ClientNotification::Initialized))\n                        .await?;", "                    if let Err(e) = self.send_notification(Notification::Client(ClientNotification::Initialized)).await { tracing::warn!(\"{}\", e); }")], ["C21"]),
    ("c21-ok", [(SIO, "        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);\n\n        Ok(())\n    }\n\n    fn is_connected", "        stdout.flush().await.ok();\n        drop(stdout);\n\n        Ok(())\n    }\n\n    fn is_connected")], ["C21"]),
    ("c21-iserr", [(SIO, "        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);\n\n        Ok(())\n    }\n\n    fn is_connected", "        let flushed = stdout.flush().await;\n        drop(stdout);\n        if flushed.is_err() { tracing::debug!(\"not flushed\"); }\n\n        Ok(())\n    }\n\n    fn is_connected")], ["C21"]),
    ("c21-default", [(STR, "                .bytes()\n                .await\n                .map_err(|e| Error::Transport(TransportError::Request(e.to_string())))?;", "                .bytes()\n                .await\n                .unwrap_or_default();")], ["C21"]),
    ("c21-null", [(SM, "        let result = handler.handle(req.arguments, extra).await?;\n        Ok(serde_json::to_value(result)?)", "        let result = handler.handle(req.arguments, extra).await?;\n        Ok(serde_json::to_value(result).unwrap_or(Value::Null))")], ["C21"]),
    ("keep-c21", [(SIO, "        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);\n\n        Ok(())\n    }\n\n    fn is_connected", "        let flushed = stdout.flush().await;\n        drop(stdout);\n        match flushed {\n            Ok(()) => Ok(()),\n            Err(e) => Err(TransportError::from(e).into()),\n        }\n    }\n\n    fn is_connected"),
                  (C, "                    self.send_notification(Notification::Client(ClientNotification::Initialized))\n                        .await?;", "                    let sent = self.send_notification(Notification::Client(ClientNotification::Initialized)).await;\n                    if sent.is_err() { tracing::debug!(\"could not greet\"); }\n                    sent?;"),
                  (SM, "        let result = handler.handle(req.arguments, extra).await?;\n        Ok(serde_json::to_value(result)?)", "        let result = handler.handle(req.arguments, extra).await;\n        result.and_then(|r| serde_json::to_value(r).map_err(Into::into))")], []),
]

# refactorings r
MUTANTS += [
    ('keep-r1', [('src/shared/event_store.rs', '        while events.len() > self.max_events {\n            events.pop_front();\n        }\n', '        let surplus = events.len().saturating_sub(self.max_events);\n        for _ in 0..surplus {\n            events.pop_front();\n        }\n'), ('src/server/elicitation.rs', '            let mut pending = self.pending.write().await;\n            if pending.contains_key(&request.elicitation_id) {\n                return Err(Error::protocol(\n                    ErrorCode::INVALID_REQUEST,\n                    "Elicitation ID is already pending",\n                ));\n            }\n            pending.insert(request.elicitation_id.clone(), tx);\n', '            let mut pending = self.pending.write().await;\n            match pending.entry(request.elicitation_id.clone()) {\n                std::collections::hash_map::Entry::Vacant(slot) => {\n                    slot.insert(tx);\n                },\n                std::collections::hash_map::Entry::Occupied(_) => {\n                    return Err(Error::protocol(\n                        ErrorCode::INVALID_REQUEST,\n                        "Elicitation ID is already pending",\n                    ));\n                },\n            }\n'), ('src/server/subscriptions.rs', '        let mut empty_uris = Vec::new();\n\n        for (uri, subscribers) in subs.iter_mut() {\n            subscribers.remove(subscriber_id);\n            if subscribers.is_empty() {\n                empty_uris.push(uri.clone());\n            }\n        }\n\n        // Remove empty subscription entries\n        for uri in empty_uris {\n            subs.remove(&uri);\n        }\n        drop(subs);\n', '        subs.retain(|_, subscribers| {\n            subscribers.remove(subscriber_id);\n            !subscribers.is_empty()\n        });\n        drop(subs);\n'), ('src/shared/session.rs', '        let expired: Vec<String> = self\n            .sessions\n            .iter()\n            .filter(|entry| entry.expires_at < now)\n            .map(|entry| entry.key().clone())\n            .collect();\n', '        let mut expired: Vec<String> = Vec::new();\n        for entry in self.sessions.iter() {\n            if entry.expires_at < now {\n                expired.push(entry.key().clone());\n            }\n        }\n')], []),
    ('keep-r2', [('src/server/auth/oauth2.rs', '        // Validate client\n        let client_id = request\n            .client_id\n            .as_ref()\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Missing client_id"))?;\n\n        if auth_code.client_id != *client_id {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                "Invalid client_id",\n            ));\n        }\n\n        // Validate redirect URI\n        let redirect_uri = request\n            .redirect_uri\n            .as_ref()\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Missing redirect_uri"))?;\n\n        if auth_code.redirect_uri != *redirect_uri {\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                "Invalid redirect_uri",\n            ));\n        }\n', '        // Validate redirect URI\n        Self::same(\n            &auth_code.redirect_uri,\n            request.redirect_uri.as_deref(),\n            "redirect_uri",\n        )?;\n\n        // Validate client\n        Self::same(&auth_code.client_id, request.client_id.as_deref(), "client_id")?;\n'), ('src/server/auth/oauth2.rs', '        // Create access token\n        self.create_access_token(&auth_code.client_id, &auth_code.user_id, auth_code.scopes)', '        let granted = auth_code.scopes;\n        // Create access token\n        self.create_access_token(&auth_code.client_id, &auth_code.user_id, granted)')], []),
    ('keep-r3', [('src/shared/sse_parser.rs', "        while let Some(line_end) = self.buffer.find('\\n') {\n            let line = &self.buffer[..line_end];\n            let line = line.strip_suffix('\\r').unwrap_or(line).to_string();\n\n            if let Some(event) = self.process_line(&line) {\n                events.push(event);\n            }\n\n            self.buffer.drain(..=line_end);\n        }\n", "        loop {\n            let Some(line_end) = self.buffer.find('\\n') else {\n                break;\n            };\n            let whole: String = self.buffer.drain(..=line_end).collect();\n            let line = whole.trim_end_matches('\\n');\n            let line = line.strip_suffix('\\r').unwrap_or(line);\n            events.extend(self.process_line(line));\n        }\n"), ('src/shared/sse_parser.rs', '        let (field, value) = if let Some(colon_pos) = line.find(\':\') {\n            let field = &line[..colon_pos];\n            let value = &line[colon_pos + 1..];\n            // Remove leading space from value if present\n            let value = value.strip_prefix(\' \').unwrap_or(value);\n            (field, value)\n        } else {\n            // Field without value\n            (line, "")\n        };\n', '        let (field, value) = match line.split_once(\':\') {\n            // Remove leading space from value if present\n            Some((field, value)) => (field, value.strip_prefix(\' \').unwrap_or(value)),\n            // Field without value\n            None => (line, ""),\n        };\n'), ('src/server/dynamic.rs', '        self.dynamic_tools.write().await.clear();\n        self.dynamic_prompts.write().await.clear();\n', '        self.dynamic_prompts.write().await.clear();\n        self.dynamic_tools.write().await.clear();\n')], []),
    ('keep-r4', [('src/server/mod.rs', '        let handler = self\n            .tools\n            .get(&req.name)\n            .ok_or_else(|| Error::not_found(format!("Tool \'{}\' not found", req.name)))?;\n\n        let cancellation_token = self\n            .cancellation_manager\n            .get_token(&request_id.to_string())\n            .await\n            .unwrap_or_else(tokio_util::sync::CancellationToken::new);\n        let extra = crate::server::cancellation::RequestHandlerExtra::new(\n            request_id.to_string(),\n            cancellation_token,\n        );\n        let result = handler.handle(req.arguments, extra).await?;\n', '        let CallToolRequest { name, arguments } = req;\n        let Some(handler) = self.tools.get(&name) else {\n            return Err(Error::not_found(format!("Tool \'{}\' not found", name)));\n        };\n\n        let extra = self.extra_for(&request_id).await;\n        let result = handler.handle(arguments, extra).await?;\n'), ('src/server/mod.rs', '    async fn handle_call_tool(&self, request_id', '    async fn extra_for(\n        &self,\n        request_id: &RequestId,\n    ) -> crate::server::cancellation::RequestHandlerExtra {\n        let id = request_id.to_string();\n        let token = match self.cancellation_manager.get_token(&id).await {\n            Some(token) => token,\n            None => tokio_util::sync::CancellationToken::new(),\n        };\n        crate::server::cancellation::RequestHandlerExtra::new(id, token)\n    }\n\n    async fn handle_call_tool(&self, request_id'), ('src/client/mod.rs', '        let request = Request::Client(Box::new(ClientRequest::CallTool(CallToolRequest {\n            name,\n            arguments,\n        })));\n        let request_id = RequestId::String(Uuid::new_v4().to_string());\n        let response = self.send_request(request_id, request).await?;\n\n        match response.payload {\n            crate::types::jsonrpc::ResponsePayload::Result(result) => {\n                serde_json::from_value(result).map_err(|e| Error::parse(e.to_string()))\n            },\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                Err(Error::from_jsonrpc_error(error))\n            },\n        }\n', '        self.ask(ClientRequest::CallTool(CallToolRequest { name, arguments }))\n            .await\n'), ('src/client/mod.rs', '    pub async fn ping(&self)', '    async fn ask<R: serde::de::DeserializeOwned>(&self, request: ClientRequest) -> Result<R> {\n        let request_id = RequestId::String(Uuid::new_v4().to_string());\n        let response = self\n            .send_request(request_id, Request::Client(Box::new(request)))\n            .await?;\n        let value = match response.payload {\n            crate::types::jsonrpc::ResponsePayload::Result(value) => value,\n            crate::types::jsonrpc::ResponsePayload::Error(error) => {\n                return Err(Error::from_jsonrpc_error(error));\n            },\n        };\n        match serde_json::from_value(value) {\n            Ok(parsed) => Ok(parsed),\n            Err(e) => Err(Error::parse(e.to_string())),\n        }\n    }\n\n    /// Ping\n    pub async fn ping(&self)')], []),
    ('keep-r5', [('src/shared/stdio.rs', '        stdout\n            .write_all(header.as_bytes())\n            .await\n            .map_err(TransportError::from)?;\n\n        // Write message payload\n        stdout\n            .write_all(json_bytes)\n            .await\n            .map_err(TransportError::from)?;\n\n        // Always flush stdio\n        stdout.flush().await.map_err(TransportError::from)?;\n        drop(stdout);\n\n        Ok(())\n', '        let written = async {\n            stdout.write_all(header.as_bytes()).await?;\n            // Write message payload\n            stdout.write_all(json_bytes).await?;\n            // Always flush stdio\n            stdout.flush().await\n        }\n        .await;\n        drop(stdout);\n\n        written.map_err(|e| TransportError::from(e).into())\n'), ('src/client/auth.rs', '        if !response.status().is_success() {\n            return Err(Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                format!("Discovery endpoint returned status: {}", response.status()),\n            ));\n        }\n\n        response.json::<OidcDiscoveryMetadata>().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::PARSE_ERROR,\n                format!("Failed to parse discovery document: {}", e),\n            )\n        })\n', '        let status = response.status();\n        if status.is_success() {\n            match response.json::<OidcDiscoveryMetadata>().await {\n                Ok(metadata) => Ok(metadata),\n                Err(e) => Err(Error::protocol(\n                    ErrorCode::PARSE_ERROR,\n                    format!("Failed to parse discovery document: {}", e),\n                )),\n            }\n        } else {\n            Err(Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                format!("Discovery endpoint returned status: {}", status),\n            ))\n        }\n'), ('src/utils/parallel_batch.rs', '                    match tokio::time::timeout(\n                        std::time::Duration::from_millis(timeout_ms),\n                        handler_future,\n                    )\n                    .await\n                    {\n                        Ok(response) => response,\n                        Err(_) => {\n                            // Create timeout error response\n                            JSONRPCResponse {\n                                jsonrpc: "2.0".to_string(),\n                                id: request_id,\n                                payload: crate::types::jsonrpc::ResponsePayload::Error(\n                                    crate::types::jsonrpc::JSONRPCError {\n                                        code: -32603,\n                                        message: "Request timeout".to_string(),\n                                        data: None,\n                                    },\n                                ),\n                            }\n                        },\n                    }\n', '                    let limit = std::time::Duration::from_millis(timeout_ms);\n                    tokio::time::timeout(limit, handler_future)\n                        .await\n                        .unwrap_or_else(|_| timed_out(request_id))\n'), ('src/utils/parallel_batch.rs', '/// Process a batch with a stateful handler', '/// Create timeout error response\nfn timed_out(id: crate::types::RequestId) -> JSONRPCResponse {\n    JSONRPCResponse {\n        jsonrpc: "2.0".to_string(),\n        id,\n        payload: crate::types::jsonrpc::ResponsePayload::Error(\n            crate::types::jsonrpc::JSONRPCError {\n                code: -32603,\n                message: "Request timeout".to_string(),\n                data: None,\n            },\n        ),\n    }\n}\n\n/// Process a batch with a stateful handler')], []),
    ('keep-r6', [('src/error/recovery.rs', '                last_error = Some(e);\n            },\n        }\n    }\n\n    Err(last_error.unwrap_or_else(|| Error::internal("No attempts made")))\n', '                last_error.replace(e);\n            },\n        }\n    }\n\n    match last_error {\n        Some(e) => Err(e),\n        None => Err(Error::internal("No attempts made")),\n    }\n'), ('src/shared/streamable_http.rs', '            if let Ok(batch) = serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {\n                for msg in batch {\n                    self.sender\n                        .send(msg)\n                        .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;\n                }\n            } else {\n                // Single message\n                let message = serde_json::from_slice(&response_bytes).map_err(|e| {\n                    Error::Transport(TransportError::Deserialization(e.to_string()))\n                })?;\n                self.sender\n                    .send(message)\n                    .map_err(|e| Error::Transport(TransportError::Send(e.to_string())))?;\n            }\n', '            let messages = match serde_json::from_slice::<Vec<TransportMessage>>(&response_bytes) {\n                Ok(batch) => batch,\n                // Single message\n                Err(_) => vec![serde_json::from_slice(&response_bytes).map_err(|e| {\n                    Error::Transport(TransportError::Deserialization(e.to_string()))\n                })?],\n            };\n            for msg in messages {\n                if let Err(e) = self.sender.send(msg) {\n                    return Err(Error::Transport(TransportError::Send(e.to_string())));\n                }\n            }\n'), ('src/shared/streamable_http.rs', '        // Optionally send a DELETE request to terminate the session\n        if let Some(_session_id) = self.session_id() {\n            let url', '        // Optionally send a DELETE request to terminate the session\n        if self.session_id().is_some() {\n            let url')], []),
    ('keep-c32-drain', [('src/shared/event_store.rs', '        while events.len() > self.max_events {\n            events.pop_front();\n        }\n', '        let surplus = events.len().saturating_sub(self.max_events);\n        events.drain(..surplus);\n'), ('src/shared/event_store.rs', '        while let Some(event) = events.front() {\n            if event.timestamp < cutoff {\n                events.pop_front();\n            } else {\n                break;\n            }\n        }\n', '        events.retain(|event| event.timestamp >= cutoff);\n'), ('src/shared/event_store.rs', '        while let Some(event) = events.front() {\n            if event.timestamp < timestamp {\n                events.pop_front();\n            } else {\n                break;\n            }\n        }\n', '        events.retain(|event| !(event.timestamp < timestamp));\n')], []),
    ('keep-c32-drain2', [('src/shared/event_store.rs', '        while events.len() > self.max_events {\n            events.pop_front();\n        }\n', '        if events.len() > self.max_events {\n            let surplus = events.len() - self.max_events;\n            events.drain(0..surplus);\n        }\n')], []),
    ('c32-stale-surplus', [('src/shared/event_store.rs', '        while events.len() > self.max_events {\n            events.pop_front();\n        }\n\n        // Remove events older than max_age\n        let cutoff = Utc::now() - self.max_age;\n        while let Some(event) = events.front() {\n            if event.timestamp < cutoff {\n                events.pop_front();\n            } else {\n                break;\n            }\n        }\n', '        let surplus = events.len().saturating_sub(self.max_events);\n        let cutoff = Utc::now() - self.max_age;\n        while let Some(event) = events.front() {\n            if event.timestamp < cutoff {\n                events.pop_front();\n            } else {\n                break;\n            }\n        }\n        for _ in 0..surplus {\n            events.pop_front();\n        }\n')], ['C32']),
    ('c32-retain-inverted', [('src/shared/event_store.rs', '        while let Some(event) = events.front() {\n            if event.timestamp < cutoff {\n                events.pop_front();\n            } else {\n                break;\n            }\n        }\n', '        events.retain(|event| event.timestamp < cutoff);\n')], ['C32']),
    ('c32-drain-all-over', [('src/shared/event_store.rs', '        while events.len() > self.max_events {\n            events.pop_front();\n        }\n', '        if events.len() > self.max_events {\n            let keep = self.max_events;\n            events.drain(..keep);\n        }\n')], ['C32']),
    ('keep-s1', [('src/shared/protocol.rs', '        if let Some(context) = self.pending_requests.remove(id) {\n            // Verify the response is for a request from this transport\n            if context.transport_id == self.transport_id {\n                // Use async runtime to send response\n                let sender = context.sender;\n                tokio::spawn(async move {\n                    let tx_option = sender.lock().await.take();\n                    if let Some(tx) = tx_option {\n                        let _ = tx.send(response);\n                    }\n                });\n            } else {\n                // Response is for a different transport, re-insert the request\n                self.pending_requests.insert(id.clone(), context);\n            }\n        }\n        Ok(())\n', '        match self.pending_requests.remove(id) {\n            // Verify the response is for a request from this transport\n            Some(context) if context.transport_id == self.transport_id => {\n                context.deliver(response);\n            },\n            Some(context) => {\n                // Response is for a different transport, re-insert the request\n                self.pending_requests.insert(id.clone(), context);\n            },\n            None => {},\n        }\n        Ok(())\n'), ('src/shared/protocol.rs', '        if let Some(context) = self.pending_requests.get(id) {\n            if &context.transport_id == transport_id {\n                if let Some(context) = self.pending_requests.remove(id) {\n                    let sender = context.sender;\n                    tokio::spawn(async move {\n                        let tx_option = sender.lock().await.take();\n                        if let Some(tx) = tx_option {\n                            let _ = tx.send(response);\n                        }\n                    });\n                    return Ok(true);\n                }\n            }\n        }\n        Ok(false)\n', '        let ours = self\n            .pending_requests\n            .get(id)\n            .is_some_and(|context| context.transport_id == *transport_id);\n        if !ours {\n            return Ok(false);\n        }\n        let Some(context) = self.pending_requests.remove(id) else {\n            return Ok(false);\n        };\n        context.deliver(response);\n        Ok(true)\n'), ('src/shared/protocol.rs', '/// Protocol state machine for', 'impl RequestContext {\n    /// Use async runtime to send response\n    fn deliver(self, response: JSONRPCResponse) {\n        let sender = self.sender;\n        tokio::spawn(async move {\n            if let Some(tx) = sender.lock().await.take() {\n                let _ = tx.send(response);\n            }\n        });\n    }\n}\n\n/// Protocol state machine for'), ('src/shared/protocol.rs', '        let (tx, rx) = oneshot::channel();\n        let context = RequestContext {\n            transport_id: self.transport_id.clone(),\n            sender: Arc::new(tokio::sync::Mutex::new(Some(tx))),\n        };\n        self.pending_requests.insert(id, context);\n        rx\n', '        let transport_id = self.transport_id.clone();\n        let (tx, rx) = oneshot::channel();\n        let sender = Arc::new(tokio::sync::Mutex::new(Some(tx)));\n        self.pending_requests.insert(\n            id,\n            RequestContext {\n                transport_id,\n                sender,\n            },\n        );\n        rx\n')], []),
    ('keep-s2', [('src/shared/protocol_helpers.rs', '    if method == "notifications/progress" {\n        let progress = serde_json::from_value(params)\n            .map_err(|e| Error::parse(format!("Invalid progress notification: {}", e)))?;\n        return Ok(Notification::Progress(progress));\n    }\n\n    if method == "notifications/cancelled" {\n        let cancelled = serde_json::from_value(params)\n            .map_err(|e| Error::parse(format!("Invalid cancelled notification: {}", e)))?;\n        return Ok(Notification::Cancelled(cancelled));\n    }\n\n    // Try to parse as client notification\n    if let Ok(client_notif) = parse_client_notification(method, &params) {\n        return Ok(Notification::Client(client_notif));\n    }\n\n    // Try to parse as server notification\n    if let Ok(server_notif) = parse_server_notification(method, &params) {\n        return Ok(Notification::Server(server_notif));\n    }\n\n    Err(Error::method_not_found(method))\n', '    match method.as_str() {\n        "notifications/progress" => serde_json::from_value(params)\n            .map(Notification::Progress)\n            .map_err(|e| Error::parse(format!("Invalid progress notification: {}", e))),\n        "notifications/cancelled" => serde_json::from_value(params)\n            .map(Notification::Cancelled)\n            .map_err(|e| Error::parse(format!("Invalid cancelled notification: {}", e))),\n        _ => parse_client_notification(method, &params)\n            .map(Notification::Client)\n            .or_else(|_| parse_server_notification(method, &params).map(Notification::Server))\n            .map_err(|_| Error::method_not_found(method)),\n    }\n'), ('src/shared/protocol_helpers.rs', '    let id = request.id;\n    let method = &request.method;\n    let params = request.params.unwrap_or(Value::Null);\n\n    // Try to parse as client request first\n    if let Ok(client_req) = parse_client_request(method, &params) {\n        return Ok((id, Request::Client(Box::new(client_req))));\n    }\n\n    // Try to parse as server request\n    if let Ok(server_req) = parse_server_request(method, &params) {\n        return Ok((id, Request::Server(Box::new(server_req))));\n    }\n\n    Err(Error::method_not_found(method))\n', '    let JSONRPCRequest {\n        id, method, params, ..\n    } = request;\n    let params = params.unwrap_or(Value::Null);\n\n    // Try to parse as client request first, then as server request\n    let parsed = match parse_client_request(&method, &params) {\n        Ok(client_req) => Request::Client(Box::new(client_req)),\n        Err(_) => match parse_server_request(&method, &params) {\n            Ok(server_req) => Request::Server(Box::new(server_req)),\n            Err(_) => return Err(Error::method_not_found(&method)),\n        },\n    };\n    Ok((id, parsed))\n'), ('src/shared/protocol_helpers.rs', '        Request::Client(boxed_req) => {\n            let client_req = *boxed_req;\n            let (method, params) = client_request_to_jsonrpc(client_req);\n            JSONRPCRequest::new(id, method, params)\n        },\n        Request::Server(server_req) => {\n            let (method, params) = server_request_to_jsonrpc(*server_req);\n            JSONRPCRequest::new(id, method, params)\n        },\n    }\n', '        Request::Client(client_req) => client_request_to_jsonrpc(*client_req),\n        Request::Server(server_req) => server_request_to_jsonrpc(*server_req),\n    };\n    JSONRPCRequest::new(id, method, params)\n'), ('src/shared/protocol_helpers.rs', '-> JSONRPCRequest<Value> {\n    match request {', '-> JSONRPCRequest<Value> {\n    let (method, params) = match request {'), ('src/shared/protocol_helpers.rs', '        Notification::Client(client_notif) => {\n            let (method, params) = client_notification_to_jsonrpc(client_notif);\n            JSONRPCNotification::new(method, params)\n        },\n        Notification::Server(server_notif) => {\n            let (method, params) = server_notification_to_jsonrpc(server_notif);\n            JSONRPCNotification::new(method, params)\n        },\n        Notification::Progress(progress) => JSONRPCNotification::new(\n            "notifications/progress",\n            Some(serde_json::to_value(progress).unwrap()),\n        ),\n        Notification::Cancelled(cancelled) => JSONRPCNotification::new(\n            "notifications/cancelled",\n            Some(serde_json::to_value(cancelled).unwrap()),\n        ),\n    }\n', '        Notification::Client(client_notif) => client_notification_to_jsonrpc(client_notif),\n        Notification::Server(server_notif) => server_notification_to_jsonrpc(server_notif),\n        Notification::Progress(progress) => create_method_params("notifications/progress", progress),\n        Notification::Cancelled(cancelled) => {\n            create_method_params("notifications/cancelled", cancelled)\n        },\n    };\n    JSONRPCNotification::new(method, params)\n'), ('src/shared/protocol_helpers.rs', '    match notification {\n        Notification::Client(', '    let (method, params) = match notification {\n        Notification::Client(')], []),
    ('keep-s3', [('src/server/streamable_http_server.rs', '    let session_id = headers\n        .get(MCP_SESSION_ID)\n        .and_then(|v| v.to_str().ok())\n        .map(|s| s.to_string());\n', '    let session_id = header_text(&headers, MCP_SESSION_ID);\n'), ('src/server/streamable_http_server.rs', '    let session_id = headers\n        .get(MCP_SESSION_ID)\n        .and_then(|v| v.to_str().ok())\n        .map(|s| s.to_string());\n', '    let session_id = header_text(&headers, MCP_SESSION_ID);\n'), ('src/server/streamable_http_server.rs', '    let session_id = headers\n        .get(MCP_SESSION_ID)\n        .and_then(|v| v.to_str().ok())\n        .map(|s| s.to_string());\n', '    let session_id = header_text(&headers, MCP_SESSION_ID);\n'), ('src/server/streamable_http_server.rs', '    let protocol_version = headers\n        .get(MCP_PROTOCOL_VERSION)\n        .and_then(|v| v.to_str().ok())\n        .map(|s| s.to_string());\n', '    let protocol_version = header_text(&headers, MCP_PROTOCOL_VERSION);\n'), ('src/server/streamable_http_server.rs', '/// Process session for initialization request', '/// Text of a header, if there is one\nfn header_text(headers: &HeaderMap, name: &str) -> Option<String> {\n    let value = headers.get(name)?;\n    value.to_str().ok().map(str::to_owned)\n}\n\n/// Process session for initialization request'), ('src/server/streamable_http_server.rs', '    if let Some(generator) = &state.config.session_id_generator {\n        // Stateful mode\n        if let Some(sid) = session_id {\n            // Check if session already exists and is initialized\n            match state.sessions.read().get(&sid) {\n                Some(session_info) if session_info.initialized => {\n                    // Session already initialized - reject re-initialization\n                    return Err(create_error_response(\n                        StatusCode::BAD_REQUEST,\n                        -32600,\n                        "Session already initialized",\n                    ));\n                },\n                Some(_) => {},\n                None => {\n                    // Session IDs are issued by the server only\n                    return Err(create_error_response(\n                        StatusCode::NOT_FOUND,\n                        -32600,\n                        "Unknown session ID",\n                    ));\n                },\n            }\n            // Use existing session ID\n            Ok((Some(sid), false))\n        } else {\n            // Generate new session ID\n            let new_id = generator();\n            // Create new session entry\n            state.sessions.write().insert(\n                new_id.clone(),\n                SessionInfo {\n                    initialized: false,\n                    protocol_version,\n                },\n            );\n            if let Some(callback) = &state.config.on_session_initialized {\n                callback(&new_id);\n            }\n            Ok((Some(new_id), true))\n        }\n    } else {\n        // Stateless mode\n        Ok((None, false))\n    }\n', '    let Some(generator) = &state.config.session_id_generator else {\n        // Stateless mode\n        return Ok((None, false));\n    };\n\n    // Stateful mode\n    let Some(sid) = session_id else {\n        let session = SessionInfo {\n            initialized: false,\n            protocol_version,\n        };\n        // Generate new session ID\n        let new_id = generator();\n        // Create new session entry\n        state.sessions.write().insert(new_id.clone(), session);\n        if let Some(callback) = &state.config.on_session_initialized {\n            callback(&new_id);\n        }\n        return Ok((Some(new_id), true));\n    };\n\n    let initialized = state.sessions.read().get(&sid).map(|info| info.initialized);\n    match initialized {\n        // Use existing session ID\n        Some(false) => Ok((Some(sid), false)),\n        // Session already initialized - reject re-initialization\n        Some(true) => Err(create_error_response(\n            StatusCode::BAD_REQUEST,\n            -32600,\n            "Session already initialized",\n        )),\n        // Session IDs are issued by the server only\n        None => Err(create_error_response(\n            StatusCode::NOT_FOUND,\n            -32600,\n            "Unknown session ID",\n        )),\n    }\n'), ('src/server/streamable_http_server.rs', '    if state.config.session_id_generator.is_some() {\n        // Stateful mode - require and validate session ID\n        match session_id {\n            None => {\n                // Missing session ID\n                Err(create_error_response(\n                    StatusCode::BAD_REQUEST,\n                    -32600,\n                    "Session ID required for non-initialization requests",\n                ))\n            },\n            Some(sid) => {\n                // Validate session exists\n                if !state.sessions.read().contains_key(&sid) {\n                    // Unknown session ID\n                    Err(create_error_response(\n                        StatusCode::NOT_FOUND,\n                        -32600,\n                        "Unknown session ID",\n                    ))\n                } else {\n                    Ok(Some(sid))\n                }\n            },\n        }\n    } else {\n        // Stateless mode\n        Ok(None)\n    }\n', '    if state.config.session_id_generator.is_none() {\n        // Stateless mode\n        return Ok(None);\n    }\n    // Stateful mode - require and validate session ID\n    let sid = session_id.ok_or_else(|| {\n        create_error_response(\n            StatusCode::BAD_REQUEST,\n            -32600,\n            "Session ID required for non-initialization requests",\n        )\n    })?;\n    // Validate session exists\n    if state.sessions.read().get(&sid).is_some() {\n        return Ok(Some(sid));\n    }\n    Err(create_error_response(\n        StatusCode::NOT_FOUND,\n        -32600,\n        "Unknown session ID",\n    ))\n')], []),
    ('keep-s4', [('src/server/streamable_http_server.rs', '    if state.config.enable_json_response {\n        // JSON response mode\n        (StatusCode::OK, Json(response)).into_response()\n    } else {\n        // SSE streaming mode\n        if let Some(sid) = session_id {\n            if let Some(sender) = state.sse_streams.read().get(sid) {\n                // Send to existing SSE stream\n                let _ = sender.send(response);\n                StatusCode::ACCEPTED.into_response()\n            } else {\n                // Return as SSE stream\n                let (tx, rx) = mpsc::unbounded_channel();\n                tx.send(response).unwrap();\n\n                let stream = UnboundedReceiverStream::new(rx);\n                let sse = Sse::new(stream.map(|msg| {\n                    let event_id = Uuid::new_v4().to_string();\n                    Ok::<_, Infallible>(\n                        Event::default()\n                            .id(event_id)\n                            .event("message")\n                            .data(serde_json::to_string(&msg).unwrap()),\n                    )\n                }));\n\n                sse.into_response()\n            }\n        } else {\n            // No session, return JSON\n            (StatusCode::OK, Json(response)).into_response()\n        }\n    }\n', '    let sid = match session_id {\n        Some(sid) if !state.config.enable_json_response => sid,\n        // JSON response mode, or no session\n        _ => return (StatusCode::OK, Json(response)).into_response(),\n    };\n\n    // SSE streaming mode\n    let streams = state.sse_streams.read();\n    if let Some(sender) = streams.get(sid) {\n        // Send to existing SSE stream\n        let _ = sender.send(response);\n        return StatusCode::ACCEPTED.into_response();\n    }\n    drop(streams);\n\n    // Return as SSE stream\n    let (tx, rx) = mpsc::unbounded_channel();\n    tx.send(response).unwrap();\n    Sse::new(UnboundedReceiverStream::new(rx).map(|msg| Ok::<_, Infallible>(sse_event(&msg))))\n        .into_response()\n'), ('src/server/streamable_http_server.rs', '/// Build response with appropriate', '/// One message as an SSE event\nfn sse_event(msg: &TransportMessage) -> Event {\n    let data = serde_json::to_string(msg).unwrap();\n    let event_id = Uuid::new_v4().to_string();\n    Event::default().id(event_id).event("message").data(data)\n}\n\n/// Build response with appropriate'), ('src/server/streamable_http_server.rs', "                // For subsequent responses, echo the session's negotiated version\n                if let Some(ref sid) = response_session_id {\n                    if let Some(session_info) = state.sessions.read().get(sid) {\n                        session_info\n                            .protocol_version\n                            .clone()\n                            .unwrap_or_else(|| crate::DEFAULT_PROTOCOL_VERSION.to_string())\n                    } else {\n                        crate::DEFAULT_PROTOCOL_VERSION.to_string()\n                    }\n                } else {\n                    // Stateless mode or no session - use default\n                    crate::DEFAULT_PROTOCOL_VERSION.to_string()\n                }\n", "                // For subsequent responses, echo the session's negotiated version;\n                // stateless mode or no session - use default\n                response_session_id\n                    .as_ref()\n                    .and_then(|sid| {\n                        let sessions = state.sessions.read();\n                        sessions.get(sid).and_then(|info| info.protocol_version.clone())\n                    })\n                    .unwrap_or_else(|| crate::DEFAULT_PROTOCOL_VERSION.to_string())\n"), ('src/server/streamable_http_server.rs', '            if let Some(event_store) = &state.config.event_store {\n                if let Some(sid) = &response_session_id {\n                    let event_id = Uuid::new_v4().to_string();\n                    let _ = event_store.store_event(sid, &event_id, &response).await;\n                }\n            }\n', '            if let (Some(event_store), Some(sid)) =\n                (&state.config.event_store, &response_session_id)\n            {\n                let event_id = Uuid::new_v4().to_string();\n                let _ = event_store.store_event(sid, &event_id, &response).await;\n            }\n'), ('src/server/streamable_http_server.rs', '        // Remove session from tracking\n        let session_exists = state.sessions.write().remove(&sid).is_some();\n\n        if !session_exists && state.config.session_id_generator.is_some() {\n            // Unknown session in stateful mode\n            return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");\n        }\n', '        // Remove session from tracking\n        if state.sessions.write().remove(&sid).is_none()\n            && state.config.session_id_generator.is_some()\n        {\n            // Unknown session in stateful mode\n            return create_error_response(StatusCode::NOT_FOUND, -32600, "Unknown session ID");\n        }\n'), ('src/server/streamable_http_server.rs', '    // For stateful mode, also validate against session\'s negotiated version if exists\n    if state.config.session_id_generator.is_some() {\n        if let Some(sid) = session_id {\n            if let Some(session_info) = state.sessions.read().get(sid.as_str()) {\n                if let Some(ref negotiated_version) = session_info.protocol_version {\n                    // If header provided, it should match the negotiated version\n                    if let Some(provided_version) = protocol_version {\n                        if provided_version != negotiated_version {\n                            return Err(create_error_response(\n                                StatusCode::BAD_REQUEST,\n                                -32600,\n                                &format!(\n                                    "Protocol version mismatch: expected {}, got {}",\n                                    negotiated_version, provided_version\n                                ),\n                            ));\n                        }\n                    }\n                }\n            }\n        }\n    }\n    Ok(())\n', '    // For stateful mode, also validate against session\'s negotiated version if exists\n    if state.config.session_id_generator.is_none() {\n        return Ok(());\n    }\n    // If header provided, it should match the negotiated version\n    let (Some(sid), Some(provided)) = (session_id, protocol_version) else {\n        return Ok(());\n    };\n    let negotiated = state\n        .sessions\n        .read()\n        .get(sid.as_str())\n        .and_then(|info| info.protocol_version.clone());\n    match negotiated {\n        Some(negotiated) if negotiated != *provided => Err(create_error_response(\n            StatusCode::BAD_REQUEST,\n            -32600,\n            &format!(\n                "Protocol version mismatch: expected {}, got {}",\n                negotiated, provided\n            ),\n        )),\n        _ => Ok(()),\n    }\n')], []),
    ('keep-t1', [('src/server/mod.rs', '        let cancellation_token = self\n            .cancellation_manager\n            .get_token(&request_id.to_string())\n            .await\n            .unwrap_or_else(tokio_util::sync::CancellationToken::new);\n        let extra = crate::server::cancellation::RequestHandlerExtra::new(\n            request_id.to_string(),\n            cancellation_token,\n        );\n', '        let extra = self.extra_for(request_id).await;\n'), ('src/server/mod.rs', '        let cancellation_token = self\n            .cancellation_manager\n            .get_token(&request_id.to_string())\n            .await\n            .unwrap_or_else(tokio_util::sync::CancellationToken::new);\n        let extra = crate::server::cancellation::RequestHandlerExtra::new(\n            request_id.to_string(),\n            cancellation_token,\n        );\n', '        let extra = self.extra_for(request_id).await;\n'), ('src/server/mod.rs', '            let cancellation_token = self\n                .cancellation_manager\n                .get_token(&request_id.to_string())\n                .await\n                .unwrap_or_else(tokio_util::sync::CancellationToken::new);\n            let extra = crate::server::cancellation::RequestHandlerExtra::new(\n                request_id.to_string(),\n                cancellation_token,\n            );\n', '            let extra = self.extra_for(request_id).await;\n'), ('src/server/mod.rs', '        let cancellation_token = self\n            .cancellation_manager\n            .get_token(&request_id.to_string())\n            .await\n            .unwrap_or_else(tokio_util::sync::CancellationToken::new);\n        let extra = crate::server::cancellation::RequestHandlerExtra::new(\n            request_id.to_string(),\n            cancellation_token,\n        );\n', '        let extra = self.extra_for(request_id).await;\n'), ('src/server/mod.rs', '        let cancellation_token = self\n            .cancellation_manager\n            .get_token(&request_id.to_string())\n            .await\n            .unwrap_or_else(tokio_util::sync::CancellationToken::new);\n        let extra = crate::server::cancellation::RequestHandlerExtra::new(\n            request_id.to_string(),\n            cancellation_token,\n        );\n', '        let extra = self.extra_for(request_id).await;\n'), ('src/server/mod.rs', '    async fn handle_call_tool(&self', '    async fn extra_for(&self, id: RequestId) -> crate::server::cancellation::RequestHandlerExtra {\n        let id = id.to_string();\n        let known = self.cancellation_manager.get_token(&id).await;\n        let token = known.unwrap_or_default();\n        crate::server::cancellation::RequestHandlerExtra::new(id, token)\n    }\n\n    async fn handle_call_tool(&self'), ('src/server/mod.rs', '        let tools = self\n            .tools\n            .keys()\n            .map(|name| crate::types::ToolInfo {\n                name: name.clone(),\n                description: None,\n                input_schema: serde_json::json!({}),\n            })\n            .collect::<Vec<_>>();\n', '        let mut tools = Vec::with_capacity(self.tools.len());\n        for name in self.tools.keys() {\n            tools.push(crate::types::ToolInfo {\n                name: name.to_string(),\n                description: None,\n                input_schema: serde_json::json!({}),\n            });\n        }\n'), ('src/server/mod.rs', '        let prompts = self\n            .prompts\n            .keys()\n            .map(|name| crate::types::PromptInfo {\n                name: name.clone(),\n                description: None,\n                arguments: None,\n            })\n            .collect::<Vec<_>>();\n', '        let mut prompts: Vec<crate::types::PromptInfo> = vec![];\n        for (name, _handler) in &self.prompts {\n            prompts.push(crate::types::PromptInfo {\n                name: name.clone(),\n                description: None,\n                arguments: None,\n            });\n        }\n'), ('src/server/mod.rs', '            loop {\n                let message = match Self::receive_message_from_transport(&transport).await {\n                    Ok(msg) => msg,\n                    Err(e) => {\n                        Self::log_error(&format!("Transport receive error: {}", e)).await;\n                        break;\n                    },\n                };\n\n                if let Err(e) = Self::handle_transport_message(&server, &transport, message).await {\n                    Self::log_error(&format!("Message handling error: {}", e)).await;\n                    break;\n                }\n            }\n', '            let failure = loop {\n                let received = Self::receive_message_from_transport(&transport).await;\n                let Ok(message) = received else {\n                    break received\n                        .map(drop)\n                        .map_err(|e| format!("Transport receive error: {}", e));\n                };\n\n                let handled = Self::handle_transport_message(&server, &transport, message).await;\n                if handled.is_err() {\n                    break handled.map_err(|e| format!("Message handling error: {}", e));\n                }\n            };\n            if let Err(text) = failure {\n                Self::log_error(&text).await;\n            }\n'), ('src/server/mod.rs', '        let response = server.handle_request(id, request).await;\n        let mut t = transport.write().await;\n        t.send(TransportMessage::Response(response)).await\n', '        let answer = TransportMessage::Response(server.handle_request(id, request).await);\n        transport.write().await.send(answer).await\n'), ('src/server/mod.rs', '        match result {\n            Ok(value) => JSONRPCResponse {\n                jsonrpc: "2.0".to_string(),\n                id,\n                payload: crate::types::jsonrpc::ResponsePayload::Result(value),\n            },\n            Err(e) => JSONRPCResponse {\n                jsonrpc: "2.0".to_string(),\n                id,\n                payload: crate::types::jsonrpc::ResponsePayload::Error(\n                    crate::types::jsonrpc::JSONRPCError {\n                        code: -32603,\n                        message: e.to_string(),\n                        data: None,\n                    },\n                ),\n            },\n        }\n', '        use crate::types::jsonrpc::{JSONRPCError, ResponsePayload};\n\n        let payload = match result {\n            Ok(value) => ResponsePayload::Result(value),\n            Err(e) => ResponsePayload::Error(JSONRPCError {\n                code: -32603,\n                message: e.to_string(),\n                data: None,\n            }),\n        };\n        JSONRPCResponse {\n            jsonrpc: "2.0".to_string(),\n            id,\n            payload,\n        }\n'), ('src/server/mod.rs', '        match request {\n            Request::Client(ref boxed_req)\n                if matches!(**boxed_req, ClientRequest::Initialize(_)) =>\n            {\n                let ClientRequest::Initialize(init_req) = boxed_req.as_ref() else {\n                    unreachable!("Pattern matched for Initialize");\n                };\n                // Store client capabilities\n                *self.client_capabilities.write().await = Some(init_req.capabilities.clone());\n                *self.initialized.write().await = true;\n', '        if let Request::Client(ref boxed_req) = request {\n            if let ClientRequest::Initialize(ref init_req) = **boxed_req {\n                // Store client capabilities\n                *self.client_capabilities.write().await = Some(init_req.capabilities.clone());\n                *self.initialized.write().await = true;\n'), ('src/server/mod.rs', '                JSONRPCResponse {\n                    jsonrpc: "2.0".to_string(),\n                    id: id.clone(),\n                    payload: crate::types::jsonrpc::ResponsePayload::Result(\n                        serde_json::to_value(result).unwrap(),\n                    ),\n                }\n            },\n            Request::Client(boxed_req) =>', '                return JSONRPCResponse {\n                    jsonrpc: "2.0".to_string(),\n                    id,\n                    payload: crate::types::jsonrpc::ResponsePayload::Result(\n                        serde_json::to_value(result).unwrap(),\n                    ),\n                };\n            }\n        }\n        match request {\n            Request::Client(boxed_req) =>')], []),
    ('keep-t2', [('src/client/mod.rs', '        let outcome = async {\n            self.transport.write().await.send(message).await?;\n            self.transport.write().await.receive().await\n        }\n        .await;\n\n        // Remove from active requests, however the exchange ended\n        self.active_requests.write().await.remove(&request_id);\n\n        let response_message = outcome?;\n\n        match response_message {\n            crate::types::TransportMessage::Response(response) => Ok(response),\n            _ => Err(Error::protocol_msg(\n                "Expected response, got different message type",\n            )),\n        }\n', '        let outcome = self.exchange(message).await;\n\n        // Remove from active requests, however the exchange ended\n        let mut active = self.active_requests.write().await;\n        active.remove(&request_id);\n        drop(active);\n\n        if let crate::types::TransportMessage::Response(response) = outcome? {\n            return Ok(response);\n        }\n        Err(Error::protocol_msg(\n            "Expected response, got different message type",\n        ))\n'), ('src/client/mod.rs', '    /// Send a notification.\n    async fn send_notification(', '    /// Send a message and take the next one that arrives.\n    async fn exchange(\n        &self,\n        message: crate::types::TransportMessage,\n    ) -> Result<crate::types::TransportMessage> {\n        let sent = self.transport.write().await.send(message).await;\n        match sent {\n            Ok(()) => self.transport.write().await.receive().await,\n            Err(e) => Err(e),\n        }\n    }\n\n    /// Send a notification.\n    async fn send_notification('), ('src/shared/stdio.rs', '        match message {\n            TransportMessage::Request { id, request } => {\n                let jsonrpc_request = crate::shared::create_request(id.clone(), request.clone());\n                serde_json::to_vec(&jsonrpc_request).map_err(|e| {\n                    TransportError::InvalidMessage(format!("Failed to serialize request: {}", e))\n                        .into()\n                })\n            },\n            TransportMessage::Response(response) => serde_json::to_vec(response).map_err(|e| {\n                TransportError::InvalidMessage(format!("Failed to serialize response: {}", e))\n                    .into()\n            }),\n            TransportMessage::Notification(notification) => {\n                let jsonrpc_notification = crate::shared::create_notification(notification.clone());\n                serde_json::to_vec(&jsonrpc_notification).map_err(|e| {\n                    TransportError::InvalidMessage(format!(\n                        "Failed to serialize notification: {}",\n                        e\n                    ))\n                    .into()\n                })\n            },\n        }\n', '        let (what, bytes) = match message {\n            TransportMessage::Request { id, request } => (\n                "request",\n                serde_json::to_vec(&crate::shared::create_request(\n                    id.clone(),\n                    request.clone(),\n                )),\n            ),\n            TransportMessage::Response(response) => ("response", serde_json::to_vec(response)),\n            TransportMessage::Notification(notification) => (\n                "notification",\n                serde_json::to_vec(&crate::shared::create_notification(notification.clone())),\n            ),\n        };\n        bytes.map_err(|e| {\n            TransportError::InvalidMessage(format!("Failed to serialize {}: {}", what, e)).into()\n        })\n'), ('src/shared/stdio.rs', '        if json_value.get("method").is_some() {\n            Self::parse_method_message(json_value)\n        } else if json_value.get("result").is_some() || json_value.get("error").is_some() {\n            Self::parse_response_message(json_value)\n        } else {\n            Err(TransportError::InvalidMessage("Unknown message type".to_string()).into())\n        }\n', '        let has = |member: &str| json_value.get(member).is_some();\n        let (call, answer) = (has("method"), has("result") || has("error"));\n        if call {\n            return Self::parse_method_message(json_value);\n        }\n        if answer {\n            return Self::parse_response_message(json_value);\n        }\n        Err(TransportError::InvalidMessage("Unknown message type".to_string()).into())\n'), ('src/shared/stdio.rs', '            if bytes_read == 0 {\n                // EOF reached\n                drop(stdin);\n                self.closed\n                    .store(true, std::sync::atomic::Ordering::Release);\n                return Err(TransportError::ConnectionClosed.into());\n            }\n\n            let line = line.trim();\n\n            if line.is_empty() {\n                // End of headers\n                break;\n            }\n\n            if let Some(length) = Self::parse_content_length(line) {\n                content_length = Some(length);\n            }\n', '            match (bytes_read, line.trim()) {\n                (0, _) => {\n                    // EOF reached\n                    drop(stdin);\n                    self.closed\n                        .store(true, std::sync::atomic::Ordering::Release);\n                    return Err(TransportError::ConnectionClosed.into());\n                },\n                // End of headers\n                (_, "") => break,\n                (_, header) => content_length = Self::parse_content_length(header).or(content_length),\n            }\n')], []),
    ('keep-t3', [('src/shared/websocket.rs', '                    Ok(Message::Text(text)) => {\n                        match serde_json::from_str::<serde_json::Value>(&text) {\n                            Ok(_json) => {\n                                // Parse the JSON value into a TransportMessage\n                                match crate::shared::stdio::StdioTransport::parse_message(\n                                    text.as_bytes(),\n                                ) {\n                                    Ok(msg) => {\n                                        if message_tx.send(msg).await.is_err() {\n                                            error!("Failed to send message to channel");\n                                            break;\n                                        }\n                                    },\n                                    Err(e) => {\n                                        error!("Failed to parse message: {}", e);\n                                    },\n                                }\n                            },\n                            Err(e) => {\n                                error!("Failed to parse WebSocket message: {}", e);\n                            },\n                        }\n                    },\n', '                    Ok(Message::Text(text)) => {\n                        // Parse the text into a TransportMessage\n                        let parsed =\n                            crate::shared::stdio::StdioTransport::parse_message(text.as_bytes());\n                        let msg = match parsed {\n                            Ok(msg) => msg,\n                            Err(e) => {\n                                error!("Failed to parse message: {}", e);\n                                continue;\n                            },\n                        };\n                        if message_tx.send(msg).await.is_err() {\n                            error!("Failed to send message to channel");\n                            break;\n                        }\n                    },\n'), ('src/shared/websocket.rs', '                Err(e) => {\n                    attempts += 1;\n                    if let Some(max) = self.config.max_reconnect_attempts {\n                        if attempts >= max {\n                            error!("Max reconnection attempts reached");\n                            return Err(e);\n                        }\n                    }\n', '                Err(e) => {\n                    attempts += 1;\n                    let exhausted = self\n                        .config\n                        .max_reconnect_attempts\n                        .is_some_and(|max| attempts >= max);\n                    if exhausted {\n                        error!("Max reconnection attempts reached");\n                        return Err(e);\n                    }\n'), ('src/shared/websocket.rs', '        {\n            let mut state = self.state.write();\n            *state = ConnectionState::Connecting;\n        }\n', '        *self.state.write() = ConnectionState::Connecting;\n'), ('src/shared/websocket.rs', '        {\n            let mut state = self.state.write();\n            *state = ConnectionState::Closing;\n        }\n\n        info!("Closing WebSocket connection");\n\n        {\n            let mut state = self.state.write();\n            *state = ConnectionState::Disconnected;\n        }\n', '        self.enter(ConnectionState::Closing);\n        info!("Closing WebSocket connection");\n        self.enter(ConnectionState::Disconnected);\n'), ('src/shared/websocket.rs', '    async fn connect_once(&self)', '    fn enter(&self, next: ConnectionState) {\n        let mut state = self.state.write();\n        *state = next;\n    }\n\n    async fn connect_once(&self)'), ('src/shared/websocket.rs', '        if !self.is_connected() {\n            return Err(crate::error::Error::Transport(\n                crate::error::TransportError::ConnectionClosed,\n            ));\n        }\n\n        let mut rx = self.message_rx.lock().await;\n        rx.recv().await.ok_or_else(|| {\n            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)\n        })\n', '        let closed = || {\n            crate::error::Error::Transport(crate::error::TransportError::ConnectionClosed)\n        };\n        if !self.is_connected() {\n            return Err(closed());\n        }\n\n        match self.message_rx.lock().await.recv().await {\n            Some(message) => Ok(message),\n            None => Err(closed()),\n        }\n')], []),
    ('keep-u1', [('src/server/notification_debouncer.rs', '    let now = Instant::now();\n    let mut to_flush = Vec::new();\n\n    {\n        let mut pending_map = pending.write().await;\n\n        // Collect notifications that are ready to flush\n        pending_map.retain(|key, pending_notif| {\n            let interval = config\n                .type_intervals\n                .get(key)\n                .copied()\n                .unwrap_or(config.default_interval);\n\n            let should_flush =\n                // Debounce interval has passed\n                now.duration_since(pending_notif.last_updated) >= interval ||\n                // Maximum wait time exceeded\n                now.duration_since(pending_notif.first_seen) >= config.max_wait_time;\n\n            if should_flush {\n                to_flush.push(pending_notif.clone());\n                false // Remove from pending\n            } else {\n                true // Keep in pending\n            }\n        });\n    }\n', '    let now = Instant::now();\n    let is_due = |key: &String, waiting: &PendingNotification| {\n        let interval = *config\n            .type_intervals\n            .get(key)\n            .unwrap_or(&config.default_interval);\n        // Maximum wait time exceeded, or debounce interval has passed\n        now.duration_since(waiting.first_seen) >= config.max_wait_time\n            || now.duration_since(waiting.last_updated) >= interval\n    };\n\n    // Collect notifications that are ready to flush\n    let mut to_flush = Vec::new();\n    let mut pending_map = pending.write().await;\n    let due: Vec<String> = pending_map\n        .iter()\n        .filter(|(key, waiting)| is_due(key, waiting))\n        .map(|(key, _)| key.clone())\n        .collect();\n    for key in due {\n        if let Some(waiting) = pending_map.remove(&key) {\n            to_flush.push(waiting);\n        }\n    }\n    drop(pending_map);\n'), ('src/server/notification_debouncer.rs', '        if let Some(existing) = pending.get_mut(&key) {\n            // Update existing notification\n            existing.last_updated = now;\n            existing.count += 1;\n\n            if self.config.enable_merging {\n                // Merge if possible\n                if existing.mergeable.len() < self.config.max_batch_size {\n                    existing.mergeable.push(notification);\n                } else if let Some(newest) = existing.mergeable.last_mut() {\n                    // No room left: the latest notification supersedes the one before it\n                    *newest = notification;\n                } else {\n                    existing.notification = notification;\n                }\n            } else {\n                // Replace with latest\n                existing.notification = notification;\n            }\n        } else {\n            // New notification\n            pending.insert(\n                key,\n                PendingNotification {\n                    notification,\n                    first_seen: now,\n                    last_updated: now,\n                    count: 1,\n                    mergeable: Vec::new(),\n                },\n            );\n        }\n\n        Ok(())\n', '        let Some(existing) = pending.get_mut(&key) else {\n            // New notification\n            let fresh = PendingNotification {\n                notification,\n                first_seen: now,\n                last_updated: now,\n                count: 1,\n                mergeable: Vec::new(),\n            };\n            pending.insert(key, fresh);\n            return Ok(());\n        };\n\n        // Update existing notification\n        existing.count += 1;\n        existing.last_updated = now;\n\n        if !self.config.enable_merging {\n            // Replace with latest\n            existing.notification = notification;\n            return Ok(());\n        }\n\n        // Merge if possible\n        let room = existing.mergeable.len() < self.config.max_batch_size;\n        if room {\n            existing.mergeable.push(notification);\n        } else {\n            // No room left: the latest notification supersedes the one before it\n            let newest = existing.mergeable.last_mut().unwrap_or(&mut existing.notification);\n            *newest = notification;\n        }\n\n        Ok(())\n')], []),
    ('keep-u2', [('src/shared/reconnect.rs', '                let mut opened_at_opt = self.circuit_opened_at.lock().await;\n                if let Some(opened_at) = *opened_at_opt {\n                    if opened_at.elapsed() >= self.config.circuit_breaker_timeout {\n                        info!("Circuit breaker timeout reached, closing circuit");\n                        *opened_at_opt = None;\n                        *state = ConnectionState::Disconnected;\n                        drop(opened_at_opt);\n                        drop(state);\n\n                        if let Some(callback) = &self.callbacks.on_circuit_close {\n                            callback();\n                        }\n\n                        retries_left\n                    } else {\n                        false\n                    }\n                } else {\n                    false\n                }\n            },\n', '                let mut opened_at = self.circuit_opened_at.lock().await;\n                let over = match *opened_at {\n                    Some(at) => at.elapsed() >= self.config.circuit_breaker_timeout,\n                    None => false,\n                };\n                if !over {\n                    return false;\n                }\n\n                info!("Circuit breaker timeout reached, closing circuit");\n                *state = ConnectionState::Disconnected;\n                opened_at.take();\n                drop(opened_at);\n                drop(state);\n\n                if let Some(callback) = &self.callbacks.on_circuit_close {\n                    callback();\n                }\n\n                retries_left\n            },\n'), ('src/shared/reconnect.rs', '        let retries_left = self\n            .config\n            .max_retries\n            .map_or(true, |max| self.retry_count.load(Ordering::Relaxed) < max);\n', '        let retries_left = match self.config.max_retries {\n            Some(max) => max > self.retry_count.load(Ordering::Relaxed),\n            None => true,\n        };\n'), ('src/shared/reconnect.rs', '        // Cap at maximum delay\n        let capped_delay = base_delay.min(self.config.max_delay.as_secs_f64());\n', '        // Cap at maximum delay\n        let longest = self.config.max_delay.as_secs_f64();\n        let capped_delay = if base_delay > longest {\n            longest\n        } else {\n            base_delay\n        };\n'), ('src/server/resource_watcher.rs', '        // Check for new events\n        if let Some(rx) = &mut *event_rx.write().await {\n            while let Ok(event) = rx.try_recv() {\n                let mut pending = pending_events.write().await;\n                pending.insert(event.path.clone(), event);\n            }\n        }\n\n        // Process debounced events\n        let now = Instant::now();\n        let mut events_to_process = Vec::new();\n\n        {\n            let mut pending = pending_events.write().await;\n            pending.retain(|path, event| {\n                if now.duration_since(event.timestamp) >= debounce {\n                    events_to_process.push((path.clone(), event.kind));\n                    false\n                } else {\n                    true\n                }\n            });\n        }\n', '        // Check for new events\n        if let Some(rx) = event_rx.write().await.as_mut() {\n            loop {\n                match rx.try_recv() {\n                    Ok(event) => {\n                        let path = event.path.clone();\n                        pending_events.write().await.insert(path, event);\n                    },\n                    Err(_) => break,\n                }\n            }\n        }\n\n        // Process debounced events\n        let mut events_to_process = Vec::new();\n        let mut pending = pending_events.write().await;\n        let now = Instant::now();\n        pending.retain(|path, event| {\n            let waiting = now.duration_since(event.timestamp) < debounce;\n            if !waiting {\n                events_to_process.push((path.clone(), event.kind));\n            }\n            waiting\n        });\n        drop(pending);\n'), ('src/server/resource_watcher.rs', '            let known = resources.read().await.contains_key(&uri);\n            if known {\n                debug!("Resource {:?} changed: {}", kind, uri);\n\n                // Send resource update notification\n                let notification = ServerNotification::ResourceUpdated(\n                    crate::types::protocol::ResourceUpdatedParams { uri: uri.clone() },\n                );\n\n                if let Err(e) = notification_tx.send(notification).await {\n                    error!("Failed to send resource update notification: {}", e);\n                }\n            }\n', '            if resources.read().await.get(&uri).is_none() {\n                continue;\n            }\n            debug!("Resource {:?} changed: {}", kind, uri);\n\n            // Send resource update notification\n            let params = crate::types::protocol::ResourceUpdatedParams { uri };\n            let sent = notification_tx\n                .send(ServerNotification::ResourceUpdated(params))\n                .await;\n            if let Err(e) = sent {\n                error!("Failed to send resource update notification: {}", e);\n            }\n'), ('src/server/resource_watcher.rs', '        if resources.len() >= self.config.max_resources {\n            warn!("Resource limit reached, not adding {}", uri);\n            return Ok(());\n        }\n\n        resources.insert(uri, info);\n        Ok(())\n', '        if resources.len() < self.config.max_resources {\n            resources.insert(uri, info);\n        } else {\n            warn!("Resource limit reached, not adding {}", uri);\n        }\n        Ok(())\n')], []),
    ('keep-u3', [('src/shared/uri_template.rs', '        for cap in TEMPLATE_EXPR.captures_iter(template) {\n            let match_range = cap.get(0).unwrap();\n\n            // Add literal text before this expression\n            if match_range.start() > last_end {\n                expressions.push(Expression::Literal(\n                    template[last_end..match_range.start()].to_string(),\n                ));\n            }\n', '        for cap in TEMPLATE_EXPR.captures_iter(template) {\n            let match_range = cap.get(0).unwrap();\n\n            // Add literal text before this expression\n            let before = &template[last_end..match_range.start()];\n            if !before.is_empty() {\n                expressions.push(Expression::Literal(before.to_owned()));\n            }\n'), ('src/shared/uri_template.rs', '                let encoded = match spec.modifier {\n                    Some(Modifier::Prefix(len)) => {\n                        let truncated = value.chars().take(len).collect::<String>();\n                        Self::encode_value(&truncated, op == Operator::Reserved)\n                    },\n                    Some(Modifier::Explode) => {\n                        // For simplicity, treat explode as normal expansion\n                        Self::encode_value(value, op == Operator::Reserved)\n                    },\n                    None => Self::encode_value(value, op == Operator::Reserved),\n                };\n', '                let reserved = matches!(op, Operator::Reserved);\n                // For simplicity, treat explode as normal expansion\n                let encoded = if let Some(Modifier::Prefix(len)) = spec.modifier {\n                    let mut truncated = String::new();\n                    for c in value.chars().take(len) {\n                        truncated.push(c);\n                    }\n                    Self::encode_value(&truncated, reserved)\n                } else {\n                    Self::encode_value(value, reserved)\n                };\n'), ('src/shared/uri_template.rs', '                match op {\n                    Operator::Simple | Operator::Reserved => {\n                        parts.push(encoded);\n                    },\n                    Operator::Label => {\n                        parts.push(encoded);\n                    },\n                    Operator::PathSegment => {\n                        parts.push(encoded);\n                    },\n                    Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {\n                        parts.push(format!("{}={}", spec.name, encoded));\n                    },\n                    Operator::Fragment => {\n                        parts.push(encoded);\n                    },\n                }\n', '                let named = matches!(\n                    op,\n                    Operator::PathParameter | Operator::Query | Operator::QueryContinuation\n                );\n                parts.push(if named {\n                    format!("{}={}", spec.name, encoded)\n                } else {\n                    encoded\n                });\n'), ('src/shared/uri_template.rs', '        if parts.is_empty() {\n            return String::new();\n        }\n\n        let separator = match op {\n            Operator::Simple | Operator::Reserved => ",",\n            Operator::Label => ".",\n            Operator::PathSegment => "/",\n            Operator::PathParameter => ";",\n            Operator::Query | Operator::QueryContinuation => "&",\n            Operator::Fragment => ",",\n        };\n\n        let prefix = match op {\n            Operator::Fragment => "#",\n            Operator::Label => ".",\n            Operator::PathSegment => "/",\n            Operator::PathParameter => ";",\n            Operator::Query => "?",\n            Operator::QueryContinuation => "&",\n            _ => "",\n        };\n', '        if parts.is_empty() {\n            return String::new();\n        }\n\n        let (prefix, separator) = match op {\n            Operator::Simple | Operator::Reserved => ("", ","),\n            Operator::Fragment => ("#", ","),\n            Operator::Label => (".", "."),\n            Operator::PathSegment => ("/", "/"),\n            Operator::PathParameter => (";", ";"),\n            Operator::Query => ("?", "&"),\n            Operator::QueryContinuation => ("&", "&"),\n        };\n'), ('src/shared/uri_template.rs', '        for expr in &self.expressions {\n            result.push_str(&Self::expand_expression(expr, vars));\n        }\n\n        Ok(result)\n', '        self.expressions\n            .iter()\n            .map(|expr| Self::expand_expression(expr, vars))\n            .for_each(|text| result.push_str(&text));\n\n        Ok(result)\n')], []),
]
MUTANTS += [
    # the remove loop with the values dropped
    ("c27-removeloop", [("src/server/notification_debouncer.rs", "        pending_map.retain(|key, pending_notif| {", "        let stale: Vec<String> = pending_map.iter().filter(|(_, p)| p.count > 1000).map(|(k, _)| k.clone()).collect();\n        for k in stale { if let Some(p) = pending_map.remove(&k) { if p.count > 2000 { to_flush.push(p); } } }\n        pending_map.retain(|key, pending_notif| {")], ["C27"]),
    ('keep-v1', [('src/utils/batching.rs', '        let mut pending = self.pending.lock().await;\n        pending.push(notification);\n\n        if pending.len() >= self.config.max_batch_size {\n            let batch = std::mem::take(&mut *pending);\n            drop(pending);\n            self.tx\n                .send(batch)\n                .await\n                .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string()))?;\n        } else {\n            drop(pending);\n        }\n\n        Ok(())\n', '        let full = {\n            let mut pending = self.pending.lock().await;\n            pending.push(notification);\n            if pending.len() < self.config.max_batch_size {\n                None\n            } else {\n                Some(pending.drain(..).collect::<Vec<_>>())\n            }\n        };\n\n        match full {\n            Some(batch) => self\n                .tx\n                .send(batch)\n                .await\n                .map_err(|_| crate::error::Error::Internal("Failed to send batch".to_string())),\n            None => Ok(()),\n        }\n'), ('src/utils/batching.rs', '                let mut pending_guard = pending.lock().await;\n                if !pending_guard.is_empty() {\n                    let batch = std::mem::take(&mut *pending_guard);\n                    drop(pending_guard);\n                    if tx.send(batch).await.is_err() {\n                        break;\n                    }\n                }\n', '                let batch = std::mem::take(&mut *pending.lock().await);\n                if batch.is_empty() {\n                    continue;\n                }\n                if let Err(_closed) = tx.send(batch).await {\n                    return;\n                }\n'), ('src/utils/batching.rs', '        let wait_time = self\n            .config\n            .debounced_methods\n            .get(&key)\n            .copied()\n            .unwrap_or(self.config.wait_time);\n\n        // Store the latest notification\n        {\n            let mut pending = self.pending.lock().await;\n            pending.insert(key.clone(), notification);\n        }\n', '        let wait_time = match self.config.debounced_methods.get(&key) {\n            Some(own) => *own,\n            None => self.config.wait_time,\n        };\n\n        // Store the latest notification\n        self.pending.lock().await.insert(key.clone(), notification);\n'), ('src/utils/batching.rs', '        // Cancel all timers\n        {\n            let mut timers = self.timers.lock().await;\n            for (_, handle) in timers.drain() {\n                handle.abort();\n            }\n        }\n\n        // Get all pending notifications\n        let mut pending = self.pending.lock().await;\n        pending.drain().map(|(_, v)| v).collect()\n', '        // Cancel all timers\n        let timers = std::mem::take(&mut *self.timers.lock().await);\n        timers.into_values().for_each(|handle| handle.abort());\n\n        // Get all pending notifications\n        let all = std::mem::take(&mut *self.pending.lock().await);\n        all.into_values().collect()\n'), ('src/server/cancellation.rs', '        let token = {\n            let mut tokens = self.tokens.write().await;\n            tokens.remove(&request_id)\n        };\n\n        if let Some(token) = token {\n            // Cancel the token\n            token.cancel();\n\n            // Send cancellation notification\n            if let Some(sender) = &self.notification_sender {\n                let notification = Notification::Client(\n                    crate::types::ClientNotification::Cancelled(CancelledNotification {\n                        request_id: crate::types::RequestId::String(request_id.clone()),\n                        reason: Some(reason.unwrap_or_else(|| "Cancelled by server".to_string())),\n                    }),\n                );\n                sender(notification);\n            }\n        }\n\n        Ok(())\n', '        let Some(token) = self.tokens.write().await.remove(&request_id) else {\n            return Ok(());\n        };\n\n        // Cancel the token\n        token.cancel();\n\n        // Send cancellation notification\n        let Some(sender) = &self.notification_sender else {\n            return Ok(());\n        };\n        let reason = match reason {\n            None => "Cancelled by server".to_string(),\n            Some(given) => given,\n        };\n        let cancelled = CancelledNotification {\n            reason: Some(reason),\n            request_id: crate::types::RequestId::String(request_id),\n        };\n        sender(Notification::Client(\n            crate::types::ClientNotification::Cancelled(cancelled),\n        ));\n        Ok(())\n'), ('src/server/cancellation.rs', '        let mut tokens = self.tokens.write().await;\n        // Cancel all active tokens\n        for token in tokens.values() {\n            token.cancel();\n        }\n        tokens.clear();\n', '        // Cancel all active tokens\n        for (_, token) in self.tokens.write().await.drain() {\n            token.cancel();\n        }\n')], []),
    ('keep-v2', [('src/shared/session.rs', '        let create_guard = self.create_lock.lock();\n        if self.sessions.len() >= self.config.max_sessions {\n            return Err(Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                "Maximum session limit reached",\n            ));\n        }\n\n        let now = Utc::now();\n        let session = Session {\n            id: Uuid::new_v4().to_string(),\n            created_at: now,\n            last_activity: now,\n            expires_at: now + self.config.timeout,\n            client_info,\n            data: serde_json::Value::Object(serde_json::Map::new()),\n            authenticated: false,\n            auth_info: None,\n        };\n\n        self.sessions.insert(session.id.clone(), session.clone());\n        drop(create_guard);\n', '        let session = {\n            let _one_at_a_time = self.create_lock.lock();\n            let room = self.sessions.len() < self.config.max_sessions;\n            if !room {\n                return Err(Error::protocol(\n                    ErrorCode::INTERNAL_ERROR,\n                    "Maximum session limit reached",\n                ));\n            }\n            let session = self.fresh_session(client_info);\n            self.sessions.insert(session.id.clone(), session.clone());\n            session\n        };\n'), ('src/shared/session.rs', '    /// Get a session by ID.\n', '    fn fresh_session(&self, client_info: Option<ClientInfo>) -> Session {\n        let now = Utc::now();\n        let expires_at = now + self.config.timeout;\n        Session {\n            id: Uuid::new_v4().to_string(),\n            created_at: now,\n            last_activity: now,\n            expires_at,\n            client_info,\n            data: serde_json::json!({}),\n            authenticated: false,\n            auth_info: None,\n        }\n    }\n\n    /// Get a session by ID.\n'), ('src/shared/session.rs', '        self.sessions.get_mut(session_id).map(|mut session| {\n            // Update last activity in place, so that a session removed meanwhile stays removed\n            session.last_activity = Utc::now();\n            session.clone()\n        })\n', '        let mut session = self.sessions.get_mut(session_id)?;\n        // Update last activity in place, so that a session removed meanwhile stays removed\n        session.last_activity = Utc::now();\n        Some(session.value().clone())\n'), ('src/shared/session.rs', '        // Check if expired\n        if session.expires_at < Utc::now() {\n            self.destroy_session(session_id)?;\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                "Session expired",\n            ));\n        }\n\n        Ok(session)\n', '        if Utc::now() <= session.expires_at {\n            return Ok(session);\n        }\n\n        // Expired\n        self.destroy_session(session_id)?;\n        Err(Error::protocol(\n            ErrorCode::INVALID_REQUEST,\n            "Session expired",\n        ))\n'), ('src/shared/session.rs', '        let session = self.sessions.remove(session_id).map(|(_, session)| session);\n\n        if let Some(session) = session {\n            // Call destruction callback\n            if let Some(callback) = &self.callbacks.on_destroy {\n                callback(&session);\n            }\n\n            info!("Destroyed session: {}", session_id);\n            Ok(())\n        } else {\n            Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                "Session not found",\n            ))\n        }\n', '        let (_, session) = self\n            .sessions\n            .remove(session_id)\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Session not found"))?;\n\n        // Call destruction callback\n        if let Some(callback) = self.callbacks.on_destroy.as_ref() {\n            callback(&session);\n        }\n\n        info!("Destroyed session: {}", session_id);\n        Ok(())\n'), ('src/shared/session.rs', '        for session_id in expired {\n            if let Some((_, session)) = self.sessions.remove(&session_id) {\n                // Call expiry callback\n                if let Some(callback) = &self.callbacks.on_expire {\n                    callback(&session);\n                }\n\n                debug!("Expired session: {}", session_id);\n            }\n        }\n', '        for session_id in &expired {\n            let Some((_, session)) = self.sessions.remove(session_id) else {\n                continue;\n            };\n            // Call expiry callback\n            if let Some(callback) = &self.callbacks.on_expire {\n                callback(&session);\n            }\n\n            debug!("Expired session: {}", session_id);\n        }\n'), ('src/shared/session.rs', '        for cookie in cookie_header.split(\';\') {\n            let parts: Vec<&str> = cookie.trim().splitn(2, \'=\').collect();\n            if parts.len() == 2 && parts[0] == "mcp-session-id" {\n                return Some(parts[1].to_string());\n            }\n        }\n', '        let ours = cookie_header\n            .split(\';\')\n            .filter_map(|cookie| cookie.trim().split_once(\'=\'))\n            .find(|(name, _)| *name == "mcp-session-id");\n        if let Some((_, id)) = ours {\n            return Some(id.to_string());\n        }\n'), ('src/shared/session.rs', '        let session = if let Some(session_id) = extract_session_id(headers) {\n            self.manager.validate_session(&session_id).ok()\n        } else {\n            None\n        };\n', '        let session = extract_session_id(headers)\n            .and_then(|session_id| self.manager.validate_session(&session_id).ok());\n')], []),
    ('keep-v3', [('src/server/auth/oauth2.rs', '        match method {\n            "plain" => verifier == challenge,\n            "S256" => {\n                use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine as _};\n                use sha2::{Digest, Sha256};\n\n                let mut hasher = Sha256::new();\n                hasher.update(verifier.as_bytes());\n                let result = hasher.finalize();\n                let encoded = URL_SAFE_NO_PAD.encode(result);\n                encoded == challenge\n            },\n            _ => false,\n        }\n', '        use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine as _};\n        use sha2::{Digest, Sha256};\n\n        if method == "plain" {\n            return verifier == challenge;\n        }\n        if method != "S256" {\n            return false;\n        }\n        challenge == URL_SAFE_NO_PAD.encode(Sha256::digest(verifier.as_bytes()))\n'), ('src/server/auth/oauth2.rs', '        let mut clients = self.clients.write().await;\n        clients.insert(client.client_id.clone(), client.clone());\n\n        Ok(client)\n', '        self.clients\n            .write()\n            .await\n            .insert(client.client_id.clone(), client.clone());\n        Ok(client)\n'), ('src/server/auth/oauth2.rs', '        let requested_scopes: Vec<&str> = request.scope.split_whitespace().collect();\n        for scope in &requested_scopes {\n            if !self.supported_scopes.iter().any(|s| s == scope) {\n                return Err(Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid scope"));\n            }\n        }\n\n        Ok(())\n', '        let known = |scope: &str| self.supported_scopes.iter().any(|s| s == scope);\n        if request.scope.split_whitespace().all(known) {\n            Ok(())\n        } else {\n            Err(Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid scope"))\n        }\n'), ('src/server/auth/oauth2.rs', '        // Store token info\n        let token_info = TokenInfo {\n            token: access_token.clone(),\n            client_id: client_id.to_string(),\n            user_id: user_id.to_string(),\n            scopes: scopes.clone(),\n            expires_at,\n            token_type: TokenType::Bearer,\n        };\n\n        let mut tokens = self.tokens.write().await;\n        tokens.insert(access_token.clone(), token_info);\n\n        // Store refresh token mapping\n        let mut refresh_tokens = self.refresh_tokens.write().await;\n        refresh_tokens.insert(refresh_token.clone(), access_token.clone());\n\n        Ok(AccessToken {\n            access_token,\n            token_type: TokenType::Bearer,\n            expires_in: Some(self.token_expiration),\n            refresh_token: Some(refresh_token),\n            scope: Some(scopes.join(" ")),\n            extra: HashMap::new(),\n        })\n', '        let scope = Some(scopes.join(" "));\n\n        // Store token info\n        self.tokens.write().await.insert(\n            access_token.clone(),\n            TokenInfo {\n                token: access_token.clone(),\n                client_id: client_id.into(),\n                user_id: user_id.into(),\n                scopes,\n                expires_at,\n                token_type: TokenType::Bearer,\n            },\n        );\n\n        // Store refresh token mapping\n        self.refresh_tokens\n            .write()\n            .await\n            .insert(refresh_token.clone(), access_token.clone());\n\n        let issued = AccessToken {\n            access_token,\n            token_type: TokenType::Bearer,\n            expires_in: Some(self.token_expiration),\n            refresh_token: Some(refresh_token),\n            scope,\n            extra: HashMap::new(),\n        };\n        Ok(issued)\n'), ('src/server/auth/oauth2.rs', '        let old_token = self\n            .refresh_tokens\n            .write()\n            .await\n            .remove(refresh_token)\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;\n\n        // Take the associated access token\n        let token_info = self\n            .tokens\n            .write()\n            .await\n            .remove(&old_token)\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token"))?;\n\n        // Create new token\n        self.create_access_token(&token_info.client_id, &token_info.user_id, token_info.scopes)\n            .await\n', '        let invalid = || Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid refresh_token");\n        let redeemed = self.refresh_tokens.write().await.remove(refresh_token);\n        let Some(old_token) = redeemed else {\n            return Err(invalid());\n        };\n\n        // Take the associated access token\n        let taken = self.tokens.write().await.remove(&old_token);\n        let TokenInfo {\n            client_id,\n            user_id,\n            scopes,\n            ..\n        } = taken.ok_or_else(invalid)?;\n\n        // Create new token\n        self.create_access_token(&client_id, &user_id, scopes).await\n'), ('src/server/auth/oauth2.rs', '        let mut tokens = self.tokens.write().await;\n        if tokens.remove(token).is_some() {\n            return Ok(());\n        }\n        drop(tokens);\n\n        // Try to revoke as refresh token\n        let access_token = self.refresh_tokens.write().await.remove(token);\n        if let Some(access_token) = access_token {\n            self.tokens.write().await.remove(&access_token);\n        }\n\n        Ok(())\n', '        let revoked = self.tokens.write().await.remove(token);\n        if revoked.is_none() {\n            // Try to revoke as refresh token\n            let mapped = self.refresh_tokens.write().await.remove(token);\n            if let Some(ref access_token) = mapped {\n                self.tokens.write().await.remove(access_token);\n            }\n        }\n\n        Ok(())\n'), ('src/server/auth/oauth2.rs', '        let token_info = tokens\n            .get(token)\n            .ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid token"))?;\n\n        // Check expiration\n        if token_info.expires_at < Self::now() {\n            return Err(Error::protocol(ErrorCode::INVALID_REQUEST, "Token expired"));\n        }\n\n        Ok(token_info.clone())\n', '        match tokens.get(token) {\n            None => Err(Error::protocol(ErrorCode::INVALID_REQUEST, "Invalid token")),\n            // Check expiration\n            Some(info) if Self::now() <= info.expires_at => Ok(info.clone()),\n            Some(_) => Err(Error::protocol(ErrorCode::INVALID_REQUEST, "Token expired")),\n        }\n')], []),
    ('keep-w1', [('src/client/auth.rs', '        if !response.status().is_success() {\n            let error_text = response.text().await.unwrap_or_default();\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                format!("Token exchange failed: {}", error_text),\n            ));\n        }\n\n        response.json::<TokenResponse>().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::PARSE_ERROR,\n                format!("Failed to parse token response: {}", e),\n            )\n        })\n', '        Self::granted(response, "exchange").await\n'), ('src/client/auth.rs', '        if !response.status().is_success() {\n            let error_text = response.text().await.unwrap_or_default();\n            return Err(Error::protocol(\n                ErrorCode::INVALID_REQUEST,\n                format!("Token refresh failed: {}", error_text),\n            ));\n        }\n\n        response.json::<TokenResponse>().await.map_err(|e| {\n            Error::protocol(\n                ErrorCode::PARSE_ERROR,\n                format!("Failed to parse token response: {}", e),\n            )\n        })\n', '        Self::granted(response, "refresh").await\n'), ('src/client/auth.rs', '    /// Refresh an access token', '    async fn granted(response: reqwest::Response, what: &str) -> Result<TokenResponse> {\n        if response.status().is_success() {\n            return response.json::<TokenResponse>().await.map_err(|e| {\n                Error::protocol(\n                    ErrorCode::PARSE_ERROR,\n                    format!("Failed to parse token response: {}", e),\n                )\n            });\n        }\n\n        let error_text = response.text().await.unwrap_or_default();\n        Err(Error::protocol(\n            ErrorCode::INVALID_REQUEST,\n            format!("Token {} failed: {}", what, error_text),\n        ))\n    }\n\n    /// Refresh an access token'), ('src/client/auth.rs', '        let mut attempts = 0;\n        let mut last_error = None;\n\n        while attempts < self.max_retries {\n            match self.fetch_discovery(&discovery_url).await {\n                Ok(metadata) => return Ok(metadata),\n                Err(e) => {\n                    // Check if this is a CORS error or network error that should be retried\n                    if self.should_retry(&e) && attempts + 1 < self.max_retries {\n                        attempts += 1;\n                        tokio::time::sleep(self.retry_delay).await;\n                        continue;\n                    }\n                    last_error = Some(e);\n                    break;\n                },\n            }\n        }\n\n        Err(last_error.unwrap_or_else(|| {\n            Error::protocol(\n                ErrorCode::INTERNAL_ERROR,\n                "Failed to discover OIDC configuration",\n            )\n        }))\n', '        for attempt in 1..=self.max_retries {\n            let e = match self.fetch_discovery(&discovery_url).await {\n                Ok(metadata) => return Ok(metadata),\n                Err(e) => e,\n            };\n            // Check if this is a CORS error or network error that should be retried\n            if attempt == self.max_retries || !self.should_retry(&e) {\n                return Err(e);\n            }\n            tokio::time::sleep(self.retry_delay).await;\n        }\n\n        Err(Error::protocol(\n            ErrorCode::INTERNAL_ERROR,\n            "Failed to discover OIDC configuration",\n        ))\n')], []),
    ('keep-w2', [('src/server/auth/middleware.rs', '        // Check if auth info is provided\n        let Some(auth_info) = auth_info else {\n            if self.required {\n                return Err(Error::protocol(\n                    ErrorCode::AUTHENTICATION_REQUIRED,\n                    "Authentication required",\n                ));\n            } else {\n                // Return anonymous context\n                return Ok(AuthContext {\n                    client_id: "anonymous".to_string(),\n                    user_id: "anonymous".to_string(),\n                    scopes: vec![],\n                    metadata: serde_json::Map::new(),\n                });\n            }\n        };\n\n        // Check auth scheme\n        if auth_info.scheme != AuthScheme::Bearer {\n            return Err(Error::protocol(\n                ErrorCode::AUTHENTICATION_REQUIRED,\n                "Invalid authentication scheme",\n            ));\n        }\n', '        // Check if auth info is provided\n        let auth_info = match auth_info {\n            Some(given) => given,\n            None if !self.required => return Ok(nobody()),\n            None => {\n                return Err(Error::protocol(\n                    ErrorCode::AUTHENTICATION_REQUIRED,\n                    "Authentication required",\n                ))\n            },\n        };\n\n        // Check auth scheme\n        let bearer = matches!(auth_info.scheme, AuthScheme::Bearer);\n        if !bearer {\n            return Err(Error::protocol(\n                ErrorCode::AUTHENTICATION_REQUIRED,\n                "Invalid authentication scheme",\n            ));\n        }\n'), ('src/server/auth/middleware.rs', '        // If we get here, all middlewares failed\n        if self.require_any {\n            Err(last_error.unwrap_or_else(|| {\n                Error::protocol(ErrorCode::AUTHENTICATION_REQUIRED, "Authentication failed")\n            }))\n        } else {\n            // Return anonymous context if none required\n            Ok(AuthContext {\n                client_id: "anonymous".to_string(),\n                user_id: "anonymous".to_string(),\n                scopes: vec![],\n                metadata: serde_json::Map::new(),\n            })\n        }\n', '        // If we get here, all middlewares failed\n        if !self.require_any {\n            // Return anonymous context if none required\n            return Ok(nobody());\n        }\n        match last_error {\n            Some(e) => Err(e),\n            None => Err(Error::protocol(\n                ErrorCode::AUTHENTICATION_REQUIRED,\n                "Authentication failed",\n            )),\n        }\n'), ('src/server/auth/middleware.rs', '/// Client credentials authentication middleware.\n', '/// Context of a request without credentials.\nfn nobody() -> AuthContext {\n    let anonymous = || "anonymous".to_string();\n    AuthContext {\n        client_id: anonymous(),\n        user_id: anonymous(),\n        scopes: Vec::new(),\n        metadata: serde_json::Map::new(),\n    }\n}\n\n/// Client credentials authentication middleware.\n'), ('src/server/auth/middleware.rs', '        // Verify client secret\n        if client.client_secret.as_deref() != Some(client_secret) {\n            return Err(Error::protocol(\n                ErrorCode::AUTHENTICATION_REQUIRED,\n                "Invalid client credentials",\n            ));\n        }\n\n        // Create auth context (client-only, no user)\n        Ok(AuthContext {\n            client_id: client.client_id.clone(),\n            user_id: client.client_id, // Use client ID as user ID for client credentials\n            scopes: client.scopes,\n            metadata: serde_json::Map::new(),\n        })\n', '        // Verify client secret\n        match &client.client_secret {\n            Some(secret) if secret == client_secret => {},\n            _ => {\n                return Err(Error::protocol(\n                    ErrorCode::AUTHENTICATION_REQUIRED,\n                    "Invalid client credentials",\n                ));\n            },\n        }\n\n        // Create auth context (client-only, no user)\n        let OAuthClient {\n            client_id, scopes, ..\n        } = client;\n        Ok(AuthContext {\n            user_id: client_id.clone(), // Use client ID as user ID for client credentials\n            client_id,\n            scopes,\n            metadata: serde_json::Map::new(),\n        })\n'), ('src/server/auth/middleware.rs', '        let scope_refs: Vec<&str> = self.required_scopes.iter().map(|s| s.as_str()).collect();\n\n        let has_required_scopes = if self.require_all {\n            context.has_all_scopes(&scope_refs)\n        } else {\n            context.has_any_scope(&scope_refs)\n        };\n\n        if !has_required_scopes {\n            return Err(Error::protocol(\n                ErrorCode::PERMISSION_DENIED,\n                "Insufficient scopes",\n            ));\n        }\n\n        Ok(context)\n', '        let wanted: Vec<&str> = self.required_scopes.iter().map(String::as_str).collect();\n        let granted = match self.require_all {\n            true => context.has_all_scopes(&wanted),\n            false => context.has_any_scope(&wanted),\n        };\n\n        if granted {\n            Ok(context)\n        } else {\n            Err(Error::protocol(\n                ErrorCode::PERMISSION_DENIED,\n                "Insufficient scopes",\n            ))\n        }\n'), ('src/server/auth/middleware.rs', 'use crate::server::auth::oauth2::OAuthProvider;\n', 'use crate::server::auth::oauth2::{OAuthClient, OAuthProvider};\n')], []),
]
