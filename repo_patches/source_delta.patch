From 7c13ef8ef0bf2e393263952d33a3e3b1fbb223a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:58 +0000
Subject: [PATCH 01/27] fix: return the control log in order, without records
 of earlier motions, and accept log size 0

---
 src/robot/logger.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..645302d 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -65,6 +65,9 @@ impl Logger {
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
+        if self.log_size == 0 {
+            return;
+        }
         self.states.push_back(state.clone());
         self.commands.push_back(*command);
         self.ring_front = (self.ring_front + 1) % self.log_size;
@@ -77,8 +80,7 @@ impl Logger {
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
         for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+            let cmd = self.commands.get(i).unwrap();
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -87,11 +89,13 @@ impl Logger {
                 torques: Torques::new(cmd.control.tau_J_d),
             };
             let record = Record {
-                state: self.states.get(index).unwrap().clone(),
+                state: self.states.get(i).unwrap().clone(),
                 command,
             };
             out.push(record);
         }
+        self.states.clear();
+        self.commands.clear();
         self.ring_front = 0;
         self.ring_size = 0;
         out
-- 
2.43.0


From 6a7cbda218bb9c50d024b3598c5dd85ff6cd9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:09 +0000
Subject: [PATCH 02/27] fix: do not lose TCP responses that arrive in the same
 segment as another response

---
 src/network.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..5ae57ce 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -383,6 +383,14 @@ impl Network {
                 _ => unreachable!(),
             }
         }
+        // The readiness events are edge-triggered, but at most one message is read per event.
+        // Re-arm the registration so that data which is still buffered is reported again.
+        if !self.events.is_empty() {
+            self.poll_read
+                .registry()
+                .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
+                .unwrap();
+        }
     }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
-- 
2.43.0


From aa4efa0bf663c0001597f3cbba31877f2af18b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:56 +0000
Subject: [PATCH 03/27] fix: report a lost TCP connection as NetworkException
 instead of hanging or panicking

---
 src/gripper.rs                  | 20 ++++++------
 src/model/library_downloader.rs |  2 +-
 src/network.rs                  | 54 ++++++++++++++++++++++-----------
 src/robot.rs                    | 44 +++++++++++++--------------
 src/robot/robot_impl.rs         | 20 ++++++------
 5 files changed, 78 insertions(+), 62 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..89f3f6e 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index 5ae57ce..fb6a0e3 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -141,10 +141,12 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket
+            .write_all(&encoded_request)
+            .map_err(create_tcp_exception)?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
@@ -154,9 +156,9 @@ impl Network {
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -174,7 +176,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -207,6 +209,7 @@ impl Network {
     ///
     /// # Error
     /// * [`FrankaException`](`crate::exception::FrankaException`) - if the handler returns an exception
+    /// or if the connection is lost.
     pub fn tcp_receive_response<T, F>(
         &mut self,
         command_id: u32,
@@ -216,7 +219,7 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
+        self.tcp_read_from_buffer(Duration::from_micros(0))?;
         let message = self.received_responses.get(&command_id);
         if message.is_none() {
             return Ok(false);
@@ -235,16 +238,16 @@ impl Network {
         }
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
-        let mut response_bytes: Option<Vec<u8>> = None;
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
+        let mut response_bytes: Option<Vec<u8>> = self.received_responses.remove(command_id);
         while response_bytes == None {
             {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
+                self.tcp_read_from_buffer(Duration::from_millis(10))?;
                 response_bytes = self.received_responses.remove(command_id);
             }
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
+        Ok(response_bytes.unwrap())
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
@@ -315,7 +318,7 @@ impl Network {
         Ok(())
     }
 
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
         self.poll_read
             .poll(&mut self.events, Some(timeout))
             .unwrap();
@@ -326,10 +329,14 @@ impl Network {
                         let mut buffer = [0_u8; 70000];
                         let available_bytes = self.tcp_socket.peek(&mut buffer);
                         let available_bytes = match available_bytes {
+                            Ok(0) => {
+                                return Err(FrankaException::NetworkException {
+                                    message: "libfranka-rs: server closed connection".to_string(),
+                                });
+                            }
                             Ok(a) => a,
                             Err(e) => {
-                                eprintln!("{}", e);
-                                return;
+                                return Err(create_tcp_exception(e));
                             }
                         };
 
@@ -340,7 +347,9 @@ impl Network {
                             };
                             if available_bytes >= header_mem_size {
                                 let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
+                                self.tcp_socket
+                                    .read_exact(&mut header_bytes)
+                                    .map_err(create_tcp_exception)?;
                                 self.pending_response.append(&mut header_bytes.clone());
                                 self.pending_response_offset = header_mem_size as usize;
                                 match self.network_type {
@@ -363,7 +372,9 @@ impl Network {
                                 self.pending_response_len - self.pending_response_offset as usize,
                             );
                             let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
+                            self.tcp_socket
+                                .read_exact(&mut response_buffer)
+                                .map_err(create_tcp_exception)?;
                             self.pending_response.append(&mut response_buffer);
                             self.pending_response_offset += number_of_bytes_to_read;
                             if self.pending_response_offset == self.pending_response_len as usize {
@@ -389,14 +400,21 @@ impl Network {
             self.poll_read
                 .registry()
                 .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
-                .unwrap();
+                .map_err(create_tcp_exception)?;
         }
+        Ok(())
     }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
     }
 }
 
+fn create_tcp_exception(error: std::io::Error) -> FrankaException {
+    FrankaException::NetworkException {
+        message: format!("libfranka-rs: TCP connection: {}", error),
+    }
+}
+
 fn serialize<T: Serialize>(s: &T) -> Vec<u8> {
     bincode::serialize(s).unwrap()
 }
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..2171bbe 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -125,9 +125,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -264,8 +264,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -276,8 +276,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -330,9 +330,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -365,7 +363,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -439,7 +437,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From b5fe10bd269c40002fbf2a12ac3a756d8e1bee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:57 +0000
Subject: [PATCH 04/27] fix: return NetworkException when the address cannot be
 resolved or no robot state arrives

---
 src/network.rs          | 5 ++++-
 src/robot/robot_impl.rs | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index fb6a0e3..59f0d41 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -69,7 +69,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("address could not be resolved")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 2171bbe..223c3d3 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From 8c6ed947cad6b703ffc3d8f18f198b8476d2105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:23 +0000
Subject: [PATCH 05/27] fix: never mix several pending UDP datagrams into one
 state

---
 src/network.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 59f0d41..9620f67 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -276,9 +276,18 @@ impl Network {
             match event.token() {
                 CLIENT => {
                     if event.is_readable() {
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
+                        // One byte more than expected, so that oversized datagrams are noticed.
+                        let mut buffer: Vec<u8> = vec![0; size_of::<T>() + 1];
+                        let mut read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
+                        // Keep the most recent datagram, but never replace a complete object by a
+                        // datagram of another size.
+                        let mut datagram: Vec<u8> = vec![0; size_of::<T>() + 1];
+                        while let Ok(res) = self.udp_socket.recv_from(&mut datagram) {
+                            if res.0 == size_of::<T>() {
+                                buffer.copy_from_slice(&datagram);
+                                read_bytes_and_address = Ok(res);
+                            }
+                        }
                         let read_bytes = match read_bytes_and_address {
                             Ok(res) => {
                                 self.udp_server_address = res.1;
@@ -293,7 +302,7 @@ impl Network {
                         if read_bytes != size_of::<T>() {
                             return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
                         }
-                        return Ok(deserialize(&buffer));
+                        return Ok(deserialize(&buffer[..read_bytes]));
                     }
                 }
                 _ => unreachable!(),
-- 
2.43.0


From 6ffb4e06c046d412d83149f8f12922b88eeef676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:24 +0000
Subject: [PATCH 06/27] fix: canceling a motion neither panics nor hangs when
 the robot rejects the stop or is gone

---
 src/robot/robot_impl.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 223c3d3..5f94da5 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -392,11 +392,12 @@ impl RobotControl for RobotImpl {
 
     // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        // A failure to stop must not hide the error which is the reason for canceling the motion.
+        self.execute_stop_command().ok();
+        let mut robot_state = self.receive_robot_state();
+        while robot_state.is_ok() && (self.motion_generator_running() || self.controller_running())
+        {
+            robot_state = self.receive_robot_state();
         }
 
         // comment from libfranka devs:
@@ -405,7 +406,7 @@ impl RobotControl for RobotImpl {
 
         self.network
             .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+            .ok();
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
-- 
2.43.0


From 26b0ded40b546b0892a384c18ae48836ab0cb6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:25 +0000
Subject: [PATCH 07/27] fix: return ControlException instead of panicking when
 a motion is already running

---
 src/robot/robot_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 5f94da5..83ceb72 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -291,7 +291,10 @@ impl RobotControl for RobotImpl {
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
         if self.motion_generator_running() || self.controller_running() {
-            panic!("libfranka-rs robot: Attempted to start multiple motions!");
+            return Err(FrankaException::ControlException {
+                log: None,
+                error: String::from("libfranka-rs robot: Attempted to start multiple motions!"),
+            });
         }
         self.current_move_motion_generator_mode = match motion_generator_mode {
             MoveMotionGeneratorMode::JointPosition => MotionGeneratorMode::JointPosition,
-- 
2.43.0


From c9b6ada41a6f891cf7e0d0d0812050c8b1e930d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:42 +0000
Subject: [PATCH 08/27] fix: close the bracket when an empty error list is
 displayed

---
 src/robot/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/errors.rs b/src/robot/errors.rs
index 8b2d077..c6ece15 100644
--- a/src/robot/errors.rs
+++ b/src/robot/errors.rs
@@ -60,6 +60,6 @@ impl fmt::Display for FrankaErrors {
                 }
             }
         }
-        Ok(())
+        write!(f, "]")
     }
 }
-- 
2.43.0


From 6d0a2b20011136865833d329b12fe8a957124cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:43 +0000
Subject: [PATCH 09/27] fix: low-pass filters reject a zero sample time or
 cutoff frequency as documented

---
 src/robot/low_pass_filter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..14fac0c 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -27,8 +27,8 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// # Return
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
-    assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(sample_time > 0. && sample_time.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -56,8 +56,8 @@ pub fn cartesian_low_pass_filter(
     y_last: &[f64; 16],
     cutoff_frequency: f64,
 ) -> [f64; 16] {
-    assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(sample_time > 0. && sample_time.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From 9030ed36aaae0a072e29dcddc453928977c09598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:44 +0000
Subject: [PATCH 10/27] fix: a model that was just downloaded is removed when
 it should not persist

---
 src/robot/robot_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 83ceb72..3d9731b 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -236,7 +236,7 @@ impl RobotImpl {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
         let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
+        if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
         Ok(model)
-- 
2.43.0


From c467564a9a1fd2511bf737b2ece4d84eac76835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:44 +0000
Subject: [PATCH 11/27] fix: write the whole model library to disk

---
 src/model/library_downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 89f3f6e..3e8c971 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -37,7 +37,7 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write(&buffer).map_err(|_| ModelException {
+            file.write_all(&buffer).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
             Ok(())
-- 
2.43.0


From 45a45a936a057813cf6a142f35e89c768afb54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:45 +0000
Subject: [PATCH 12/27] fix: coriolis_from_state uses the inertia of the total
 load

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From 7fd493ed199b482453f32d5b4837be1c509fbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:11 +0000
Subject: [PATCH 13/27] fix: keep rotations by 180 degrees when poses are
 converted, filtered or rate limited

---
 src/robot/rate_limiting.rs | 8 ++++++--
 src/utils.rs               | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..6c63705 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -356,8 +356,12 @@ pub fn limit_rate_cartesian_pose(
         let R = Matrix3::identity()
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
-        limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+        limited_commanded_pose.rotation = UnitQuaternion::from_matrix_eps(
+            &(R * last_commanded_pose.rotation.to_rotation_matrix()),
+            f64::EPSILON,
+            0,
+            last_commanded_pose.rotation,
+        );
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..466dff3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,11 +9,13 @@ use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
-        &Matrix4::from_column_slice(array)
+    let mut rot = Rotation3::from_matrix_unchecked(
+        Matrix4::from_column_slice(array)
             .remove_column(3)
             .remove_row(3),
     );
+    // In contrast to `Rotation3::from_matrix` this also converges for rotations by 180 degrees.
+    rot.renormalize();
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From d849e6c249d6fe2ee45f67a2e12b32c3d42d85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:12 +0000
Subject: [PATCH 14/27] fix: notice a TCP connection that is closed inside a
 response header

---
 src/network.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 9620f67..ed153cc 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -334,6 +334,15 @@ impl Network {
         self.poll_read
             .poll(&mut self.events, Some(timeout))
             .unwrap();
+        // The readiness events are edge-triggered, but at most one message is read per event.
+        // Re-arm the registration so that data which is still buffered or a closed connection is
+        // reported again.
+        if !self.events.is_empty() {
+            self.poll_read
+                .registry()
+                .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
+                .map_err(create_tcp_exception)?;
+        }
         for event in self.events.iter() {
             match event.token() {
                 CLIENT => {
@@ -376,6 +385,10 @@ impl Network {
                                         self.pending_command_id = header.command_id;
                                     }
                                 };
+                            } else if event.is_read_closed() {
+                                return Err(FrankaException::NetworkException {
+                                    message: "libfranka-rs: server closed connection".to_string(),
+                                });
                             }
                         }
                         if !self.pending_response.is_empty() && available_bytes > 0 {
@@ -406,14 +419,6 @@ impl Network {
                 _ => unreachable!(),
             }
         }
-        // The readiness events are edge-triggered, but at most one message is read per event.
-        // Re-arm the registration so that data which is still buffered is reported again.
-        if !self.events.is_empty() {
-            self.poll_read
-                .registry()
-                .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
-                .map_err(create_tcp_exception)?;
-        }
         Ok(())
     }
     pub fn get_udp_port(&self) -> u16 {
-- 
2.43.0


From eb6dd3f791ff54e321a1fa0a66bccf7d93eeac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:13 +0000
Subject: [PATCH 15/27] fix: small rotations do not make the Cartesian pose
 limiter fail

---
 src/robot/rate_limiting.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index 6c63705..4369b1b 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -5,8 +5,7 @@
 //! joint position and joint velocity.
 
 use nalgebra::{
-    Isometry3, Matrix3, Matrix3x1, Matrix6x1, Rotation3, Translation3, UnitQuaternion, Vector3, U1,
-    U3,
+    Isometry3, Matrix3, Matrix3x1, Matrix6x1, Translation3, UnitQuaternion, Vector3, U1, U3,
 };
 
 use crate::robot::control_tools::is_homogeneous_transformation;
@@ -307,12 +306,9 @@ pub fn limit_rate_cartesian_pose(
     let dx_head =
         (commanded_pose.translation.vector - last_commanded_pose.translation.vector) / DELTA_T;
 
-    let mut rot_diff: Rotation3<f64> = commanded_pose.rotation.to_rotation_matrix()
-        * last_commanded_pose
-            .rotation
-            .to_rotation_matrix()
-            .transpose();
-    rot_diff.renormalize();
+    // The angle of a rotation matrix is the arc cosine of its trace, which is imprecise (or even NaN)
+    // for small rotations. The quaternion does not have this problem.
+    let rot_diff = commanded_pose.rotation * last_commanded_pose.rotation.inverse();
     let dx_tail = rot_diff.scaled_axis() / DELTA_T;
 
     let mut commanded_O_dP_EE_c = [0.; 6];
-- 
2.43.0


From 2b5dfcb75a81cbc558b5c1add4f34f3eba83be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 16/27] fix: an unusable model is not kept if persistence was
 not requested

---
 src/robot/robot_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 3d9731b..848b002 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -235,11 +235,11 @@ impl RobotImpl {
         if !model_already_downloaded {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
-        let model = Model::new(model_file, None)?;
+        let model = Model::new(model_file, None);
         if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
-        Ok(model)
+        model
     }
     pub fn server_version(&self) -> u16 {
         self.ri_version.unwrap()
-- 
2.43.0


From d4865187b926294f846d0c47255f284f87a78b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:15 +0000
Subject: [PATCH 17/27] fix: forget the response of a motion that is aborted
 before it begins

---
 src/network.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index ed153cc..1f137a5 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -231,14 +231,9 @@ impl Network {
             panic!("libfranka-rs: Incorrect TCP message size.");
         }
         let message: T = deserialize(message.unwrap());
-        let result = handler(message);
-        match result {
-            Ok(_) => {
-                self.received_responses.remove(&command_id);
-                Ok(true)
-            }
-            Err(e) => Err(e),
-        }
+        self.received_responses.remove(&command_id);
+        handler(message)?;
+        Ok(true)
     }
 
     fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
-- 
2.43.0


From fc451055b77381673d1c2a8256592cdb2ef3a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:49 +0000
Subject: [PATCH 18/27] fix: signals do not make network operations panic

---
 src/network.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 1f137a5..89c88c2 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,13 +8,13 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
 use std::os::unix::io::AsRawFd;
 use std::str::FromStr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
@@ -264,9 +264,11 @@ impl Network {
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        self.poll_read_udp
-            .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
+        poll_uninterrupted(
+            &mut self.poll_read_udp,
+            &mut self.events_udp,
+            self.udp_timeout,
+        );
         for event in self.events_udp.iter() {
             match event.token() {
                 CLIENT => {
@@ -326,9 +328,7 @@ impl Network {
     }
 
     fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
-        self.poll_read
-            .poll(&mut self.events, Some(timeout))
-            .unwrap();
+        poll_uninterrupted(&mut self.poll_read, &mut self.events, timeout);
         // The readiness events are edge-triggered, but at most one message is read per event.
         // Re-arm the registration so that data which is still buffered or a closed connection is
         // reported again.
@@ -421,6 +421,22 @@ impl Network {
     }
 }
 
+/// Waits for events. A signal which is handled meanwhile does not end the waiting.
+fn poll_uninterrupted(poll: &mut Poll, events: &mut Events, timeout: Duration) {
+    let start = Instant::now();
+    let mut remaining = timeout;
+    loop {
+        match poll.poll(events, Some(remaining)) {
+            Err(error) if error.kind() == ErrorKind::Interrupted => {
+                remaining = timeout
+                    .checked_sub(start.elapsed())
+                    .unwrap_or_else(|| Duration::from_secs(0));
+            }
+            result => return result.unwrap(),
+        }
+    }
+}
+
 fn create_tcp_exception(error: std::io::Error) -> FrankaException {
     FrankaException::NetworkException {
         message: format!("libfranka-rs: TCP connection: {}", error),
-- 
2.43.0


From 1aa951af6e0ee8f608127c98c853cf87e36293f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:20 +0000
Subject: [PATCH 19/27] fix: models that are loaded at the same time do not
 disturb each other

---
 src/robot/robot_impl.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 848b002..f1bdbf2 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -22,8 +22,9 @@ use crate::robot::types::{
     ControllerCommand, ControllerMode, MotionGeneratorCommand, MotionGeneratorMode, RobotCommand,
     RobotMode, RobotStateIntern,
 };
-use std::fs::remove_file;
+use std::fs::{remove_file, rename};
 use std::path::Path;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 pub struct RobotImpl {
     pub network: Network,
@@ -231,14 +232,31 @@ impl RobotImpl {
     }
     pub fn load_model(&mut self, persistent: bool) -> FrankaResult<Model> {
         let model_file = Path::new("/tmp/model.so");
-        let model_already_downloaded = model_file.exists();
-        if !model_already_downloaded {
-            LibraryDownloader::download(&mut self.network, model_file)?;
+        if model_file.exists() {
+            let model = Model::new(model_file, None);
+            if !persistent {
+                remove_file(model_file).ok();
+            }
+            return model;
         }
-        let model = Model::new(model_file, None);
-        if !persistent {
-            remove_file(model_file).expect("Could not delete file");
+        // Other robots of this or another process may load their model at the same time. Therefore,
+        // every model is downloaded to a file of its own, and only a complete one is stored.
+        static DOWNLOADS: AtomicUsize = AtomicUsize::new(0);
+        let download_file = model_file.with_extension(format!(
+            "so.{}-{}",
+            std::process::id(),
+            DOWNLOADS.fetch_add(1, Ordering::Relaxed)
+        ));
+        let mut model = LibraryDownloader::download(&mut self.network, &download_file)
+            .and_then(|_| Model::new(&download_file, None));
+        if persistent && model.is_ok() {
+            if let Err(error) = rename(&download_file, model_file) {
+                model = Err(FrankaException::ModelException {
+                    message: format!("libfranka-rs: Cannot store the model: {}", error),
+                });
+            }
         }
+        remove_file(&download_file).ok();
         model
     }
     pub fn server_version(&self) -> u16 {
-- 
2.43.0


From de2d4b385df2692b1dc77c49062aab6f6237c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:08 +0000
Subject: [PATCH 20/27] fix: the newest pending state is used even if older
 ones arrive behind it

Draining the socket inside udp_blocking_receive kept the datagram that arrived
last. States that were reordered or duplicated by the network thereby replaced
newer ones, which were lost. Take the objects one at a time: the callers already
select the newest by its message id.
---
 src/network.rs | 91 ++++++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 52 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 89c88c2..19699d8 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -248,66 +248,53 @@ impl Network {
         Ok(response_bytes.unwrap())
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
-        // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
-        // is fixed
-        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-        let available_bytes = self.udp_socket.peek(&mut buffer).ok()?;
-        if available_bytes >= size_of::<T>() {
-            let object: Option<T> = match self.udp_blocking_receive() {
-                Ok(o) => Some(o),
-                Err(_) => None,
-            };
-            return object;
-        }
-        None
+        self.udp_take_object().unwrap_or(None)
     }
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        poll_uninterrupted(
-            &mut self.poll_read_udp,
-            &mut self.events_udp,
-            self.udp_timeout,
-        );
-        for event in self.events_udp.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        // One byte more than expected, so that oversized datagrams are noticed.
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>() + 1];
-                        let mut read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        // Keep the most recent datagram, but never replace a complete object by a
-                        // datagram of another size.
-                        let mut datagram: Vec<u8> = vec![0; size_of::<T>() + 1];
-                        while let Ok(res) = self.udp_socket.recv_from(&mut datagram) {
-                            if res.0 == size_of::<T>() {
-                                buffer.copy_from_slice(&datagram);
-                                read_bytes_and_address = Ok(res);
-                            }
-                        }
-                        let read_bytes = match read_bytes_and_address {
-                            Ok(res) => {
-                                self.udp_server_address = res.1;
-                                res.0
-                            }
-                            Err(e) => {
-                                return Err(FrankaException::NetworkException {
-                                    message: e.to_string(),
-                                });
-                            }
-                        };
-                        if read_bytes != size_of::<T>() {
-                            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
-                        }
-                        return Ok(deserialize(&buffer[..read_bytes]));
+        loop {
+            // The readiness events are edge-triggered: wait only if the socket is drained.
+            if let Some(object) = self.udp_take_object()? {
+                return Ok(object);
+            }
+            poll_uninterrupted(
+                &mut self.poll_read_udp,
+                &mut self.events_udp,
+                self.udp_timeout,
+            );
+            if self.events_udp.is_empty() {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: UDP receive: timeout".to_string(),
+                });
+            }
+        }
+    }
+    /// Takes the oldest pending object out of the socket. Datagrams of another size are skipped,
+    /// they are an error if no object is pending behind them.
+    fn udp_take_object<T: Debug + DeserializeOwned + 'static>(
+        &mut self,
+    ) -> FrankaResult<Option<T>> {
+        let mut nothing_pending = Ok(None);
+        // One byte more than expected, so that oversized datagrams are noticed.
+        let mut buffer: Vec<u8> = vec![0; size_of::<T>() + 1];
+        loop {
+            match self.udp_socket.recv_from(&mut buffer) {
+                Ok((read_bytes, address)) => {
+                    self.udp_server_address = address;
+                    if read_bytes == size_of::<T>() {
+                        return Ok(Some(deserialize(&buffer[..read_bytes])));
                     }
+                    nothing_pending = Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
+                }
+                Err(e) if e.kind() == ErrorKind::WouldBlock => return nothing_pending,
+                Err(e) => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
                 }
-                _ => unreachable!(),
             }
         }
-        Err(FrankaException::NetworkException {
-            message: "libfranka-rs: UDP receive: timeout".to_string(),
-        })
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
         &mut self,
-- 
2.43.0


From d4e6f9456e2e347ccbf2d189cc3c4c06d6aef031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:16 +0000
Subject: [PATCH 21/27] fix: a very large log size does not make connecting
 panic

VecDeque::with_capacity(log_size) panics with a capacity overflow (or aborts
the process) when the log size is meant to keep everything. At most 10000
records are reserved before they are needed; the log itself is not limited.
---
 src/robot/logger.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index 645302d..b5457b5 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -54,11 +54,15 @@ pub(crate) struct Logger {
     log_size: usize,
 }
 
+/// Memory for at most this many records is reserved before it is needed.
+const MAX_RESERVED_RECORDS: usize = 10_000;
+
 impl Logger {
     pub fn new(log_size: usize) -> Self {
+        let reserved = usize::min(log_size, MAX_RESERVED_RECORDS);
         Logger {
-            states: VecDeque::with_capacity(log_size),
-            commands: VecDeque::with_capacity(log_size),
+            states: VecDeque::with_capacity(reserved),
+            commands: VecDeque::with_capacity(reserved),
             ring_front: 0,
             ring_size: 0,
             log_size,
-- 
2.43.0


From 358bc2a29eddce4e594c958c9fd48490a411a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:24 +0000
Subject: [PATCH 22/27] fix: poses with skewed or left-handed axes are refused

is_homogeneous_transformation only looked at the length of the rows and
columns, so that for example a reflection was sent to the robot as a pose.
---
 src/robot/control_tools.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/robot/control_tools.rs b/src/robot/control_tools.rs
index d2ffa99..569c7b1 100644
--- a/src/robot/control_tools.rs
+++ b/src/robot/control_tools.rs
@@ -3,6 +3,7 @@
 
 use crate::exception::FrankaException;
 use crate::FrankaResult;
+use nalgebra::Vector3;
 use std::path::Path;
 
 /// Determines whether the current OS kernel is a realtime kernel.
@@ -57,6 +58,7 @@ pub fn set_current_thread_to_highest_scheduler_priority() -> FrankaResult<()> {
 #[allow(clippy::float_cmp)]
 pub fn is_homogeneous_transformation(transform: &[f64; 16]) -> bool {
     const ORTHONORMAL_THRESHOLD: f64 = 1e-5;
+    const ORTHOGONAL_THRESHOLD: f64 = 1e-4;
     if transform[3] != 0.0 || transform[7] != 0.0 || transform[11] != 0.0 || transform[15] != 1.0 {
         return false;
     }
@@ -82,6 +84,11 @@ pub fn is_homogeneous_transformation(transform: &[f64; 16]) -> bool {
             return false;
         }
     }
-
-    true
+    // The axes have to be orthogonal to each other and right-handed.
+    let axis = |j: usize| Vector3::from_column_slice(&transform[j * 4..j * 4 + 3]);
+    let (x, y, z) = (axis(0), axis(1), axis(2));
+    [x.dot(&y), y.dot(&z), z.dot(&x)]
+        .iter()
+        .all(|dot_product| f64::abs(*dot_product) <= ORTHOGONAL_THRESHOLD)
+        && x.cross(&y).dot(&z) > 0.
 }
-- 
2.43.0


From 569c9b41b46258aa701d38622fa402152452c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:48 +0000
Subject: [PATCH 23/27] fix: a partly received response does not block the
 non-blocking receive

After the header was read its bytes were still counted as available, so that
read_exact waited for bytes that had not arrived. While the rest of a response
was missing, the state stream (and its timeout) was not looked at.
---
 src/network.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 19699d8..9d5dcbe 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -331,7 +331,7 @@ impl Network {
                     if event.is_readable() {
                         let mut buffer = [0_u8; 70000];
                         let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
+                        let mut available_bytes = match available_bytes {
                             Ok(0) => {
                                 return Err(FrankaException::NetworkException {
                                     message: "libfranka-rs: server closed connection".to_string(),
@@ -355,6 +355,7 @@ impl Network {
                                     .map_err(create_tcp_exception)?;
                                 self.pending_response.append(&mut header_bytes.clone());
                                 self.pending_response_offset = header_mem_size as usize;
+                                available_bytes -= header_mem_size;
                                 match self.network_type {
                                     NetworkType::Gripper => {
                                         let header: CommandHeader = deserialize(&header_bytes);
@@ -373,7 +374,7 @@ impl Network {
                                 });
                             }
                         }
-                        if !self.pending_response.is_empty() && available_bytes > 0 {
+                        if !self.pending_response.is_empty() {
                             let number_of_bytes_to_read = usize::min(
                                 available_bytes,
                                 self.pending_response_len - self.pending_response_offset as usize,
-- 
2.43.0


From b8b98c97ab4ad5af5703f108f9f0a777d223530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:58 +0000
Subject: [PATCH 24/27] fix: an aborted stop command is not reported as
 impossible in the current mode

---
 src/robot.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/robot.rs b/src/robot.rs
index de89a1e..bcaf734 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -542,10 +542,11 @@ impl Robot {
             .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
-            StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
-                Err(create_command_exception(
-                    "libfranka-rs: command rejected: command not possible in current mode",
-                ))
+            StopMoveStatus::CommandNotPossibleRejected => Err(create_command_exception(
+                "libfranka-rs: command rejected: command not possible in current mode",
+            )),
+            StopMoveStatus::Aborted => {
+                Err(create_command_exception("libfranka-rs: command aborted!"))
             }
             StopMoveStatus::EmergencyAborted => Err(create_command_exception(
                 "libfranka-rs: command aborted: User Stop pressed!",
-- 
2.43.0


From b87f657ee70b132323398b4df33f8ed23aa3b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:10 +0000
Subject: [PATCH 25/27] fix: a motion that the robot left is an error even if
 it claims success

---
 src/robot/robot_impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index f1bdbf2..efbc9df 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -467,7 +467,12 @@ impl RobotControl for RobotImpl {
                     &robot_state.last_motion_errors,
                     self.logger.flush(),
                 )),
-                Ok(_) => panic!("Unexpected reply to a Move command"),
+                Ok(_) => Err(create_control_exception(
+                    String::from("libfranka-rs: Unexpected reply to a Move command!"),
+                    &response.status,
+                    &robot_state.last_motion_errors,
+                    self.logger.flush(),
+                )),
             };
         }
         Ok(())
-- 
2.43.0


From 4c31bf83d4ed21a80c57c0eeb2e6e9bcdae32fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:51 +0000
Subject: [PATCH 26/27] fix: an empty model library is a model exception

---
 src/network.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 9d5dcbe..0909c8e 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -191,10 +191,11 @@ impl Network {
                 });
             }
         }
-        assert_ne!(
-            lib_response.header.size as usize,
-            size_of::<LoadModelLibraryResponse>()
-        );
+        if response_bytes.len() == size_of::<LoadModelLibraryResponse>() {
+            return Err(FrankaException::ModelException {
+                message: "libfranka-rs: Server sent an empty model library.".to_string(),
+            });
+        }
         buffer.append(&mut Vec::from(
             &response_bytes[size_of::<LoadModelLibraryResponse>()..],
         ));
-- 
2.43.0


From 4ec9ed5b356b99e23d94f83559781369763563d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:25 +0000
Subject: [PATCH 27/27] fix: the control log keeps the elbow of Cartesian
 commands

---
 src/robot/logger.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index b5457b5..57e4346 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -85,11 +85,15 @@ impl Logger {
         let mut out: Vec<Record> = Vec::new();
         for i in 0..self.ring_size {
             let cmd = self.commands.get(i).unwrap();
+            let elbow = match cmd.motion.valid_elbow {
+                true => Some(cmd.motion.elbow_c),
+                false => None,
+            };
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
-                cartesian_pose: CartesianPose::new(cmd.motion.O_T_EE_c, None),
-                cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
+                cartesian_pose: CartesianPose::new(cmd.motion.O_T_EE_c, elbow),
+                cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, elbow),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
             let record = Record {
-- 
2.43.0

