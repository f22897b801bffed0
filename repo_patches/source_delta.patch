From 555f2c287c065968f52dd6c19818ce0a62725b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 01/24] fix: switch_to_inference put the network in the
 training run state

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index f8e5557..ccb6a72 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -195,7 +195,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From f472257c20d2380368e665e7ad74248eaa84e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 02/24] fix: convolution input gradient visited the wrong range
 of output positions

---
 src/tensor/operations/convolution.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..c322456 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -215,15 +215,17 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
+                    let i_start =
+                        (a as i64 - kernel_shape.di as i64).div_euclid(stride as i64) + 1;
                     // Now converting to unsigned
                     let i_start = i_start.max(0) as u32;
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let j_start =
+                        (b as i64 - kernel_shape.dj as i64).div_euclid(stride as i64) + 1;
                     let j_start = j_start.max(0) as u32;
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From a045253ad5a7d91df1d089fad6876db6a4e7a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 03/24] fix: convolution kernel gradient summed the gradients
 of every output channel

---
 src/tensor/operations/convolution.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index c322456..6e640f5 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -279,20 +279,20 @@ pub fn convolution_backprop_kernel(
                 let mut convolution_result: f32 = 0.0;
 
                 // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                // Only the channel this kernel produced contributes to its gradient
+                let k = kernel_channel;
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients
+                            .get_data_index(&TensorIndex { i: i, j: j, k: k })
+                            as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result += image.data[image_id]
+                            * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
-- 
2.43.0


From 5cf7f23860645b77523989072ce09fd438c114f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 04/24] fix: convolutional backward ignored the ReLU derivative

---
 src/layer/convolutional.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..ae2f972 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -234,8 +234,8 @@ impl Layer for ConvolutionalLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         // Relu backprop
-        // This repurposes the relu mask
-        tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+        let mut masked_gradient = self.relu_mask.clone();
+        tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
         // Bias gradient
 
@@ -244,7 +244,7 @@ impl Layer for ConvolutionalLayer {
         // kernel gradients
         for i in 0..self.kernels.len() {
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
@@ -254,7 +254,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &masked_gradient,
             &self.kernels,
             self.stride,
             outgoing_gradient,
-- 
2.43.0


From 43cd3ac5becf71a94badda1412fb64063720a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 05/24] fix: fully connected backward overwrote its ReLU mask,
 spoiling a second backward

---
 src/layer/fully_connected.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..f05c460 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -175,13 +175,14 @@ impl Layer for FullyConnectedLayer {
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
             // Apply the relu backrop
-            Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+            let mut masked_gradient = self.relu_mask.clone();
+            Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
             // bias gradient
-            Tensor::add_to_self(&mut self.bias_gradients, &self.relu_mask);
+            Tensor::add_to_self(&mut self.bias_gradients, &masked_gradient);
             // weights gradient
             Tensor::matrix_multiply_transpose_second(
-                &self.relu_mask,
+                &masked_gradient,
                 input,
                 &mut self.weights_gradients_intermediate,
             )?;
@@ -192,7 +193,7 @@ impl Layer for FullyConnectedLayer {
             // outgoing gradient
             Tensor::matrix_multiply_transpose_first(
                 &self.weights,
-                &self.relu_mask,
+                &masked_gradient,
                 outgoing_gradient,
             )?;
             return Ok(());
-- 
2.43.0


From b2c5d863db04ecf00b376e533bf85d071eeccda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 06/24] fix: convolutional and max pool backward did not reject
 inference mode

---
 src/layer/convolutional.rs | 3 +++
 src/layer/max_pool.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index ae2f972..8b036a5 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -233,6 +233,9 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
         // Relu backprop
         let mut masked_gradient = self.relu_mask.clone();
         tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..846a3f2 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -171,6 +171,9 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state != NetworkRunState::Training {
+            return Err("Can only do backprop in training mode");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
-- 
2.43.0


From 925c1308a6d19804b86b36f3d687a71d10931705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 07/24] fix: convolutional kernel gradients were overwritten
 instead of accumulated

---
 src/layer/convolutional.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 8b036a5..d314cea 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -246,13 +246,15 @@ impl Layer for ConvolutionalLayer {
 
         // kernel gradients
         for i in 0..self.kernels.len() {
+            let mut kernel_gradient = Tensor::new(self.kernels[i].get_shape());
             tensor::operations::convolution::convolution_backprop_kernel(
                 &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
-                &mut self.kernel_gradients[i],
+                &mut kernel_gradient,
             )?;
+            Tensor::add_to_self(&mut self.kernel_gradients[i], &kernel_gradient);
         }
 
         // Outgoing gradient
-- 
2.43.0


From 299f6d7e0ba153f648dd9459d0b6ac232c55e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 08/24] fix: convolutional backward never computed the bias
 gradients

---
 src/layer/convolutional.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index d314cea..e17a29d 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -241,6 +241,19 @@ impl Layer for ConvolutionalLayer {
         tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
         // Bias gradient
+        for (k, bias_gradient) in self.bias_gradients.iter_mut().enumerate() {
+            let mut total = bias_gradient.get_item(&TensorIndex::zero());
+            for j in 0..self.output_shape.dj {
+                for i in 0..self.output_shape.di {
+                    total += masked_gradient.get_item(&TensorIndex {
+                        i: i,
+                        j: j,
+                        k: k as u32,
+                    });
+                }
+            }
+            bias_gradient.set_item(&TensorIndex::zero(), total);
+        }
 
         // Biases don't affect gradient propagation
 
@@ -287,6 +300,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 2d974d4f131f6e498d5001b23b158409d09a4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 09/24] fix: kernels larger than the image and zero strides
 panicked or were accepted

---
 src/tensor.rs                        | 9 +++++++++
 src/tensor/operations/convolution.rs | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..b8cf348 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,12 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        if stride == 0 || kernel_shape.di == 0 || kernel_shape.dj == 0 {
+            return false;
+        }
+        if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -487,6 +493,9 @@ impl Tensor {
 
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
+        if !Tensor::does_kernel_stride_fit_image(image_shape, mask_shape, stride) {
+            return false;
+        }
         if (image_shape.di - mask_shape.di) % stride != 0 {
             return false;
         }
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 6e640f5..beb224c 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -18,6 +18,9 @@ pub fn check_convolution_dimensions(
 
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
+    if !Tensor::does_kernel_stride_fit_image(image_shape, kernel_shape, stride) {
+        return Err("Kernel does not fit in image with given stride");
+    }
     if (image_shape.di - kernel_shape.di) % stride != 0 {
         return Err("First dimensions of kernel and shape do not match with stride");
     }
-- 
2.43.0


From 64a08584cfe01390e20c5813a11101c02b990b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 10/24] fix: convolutional layer accepted kernels and biases it
 can never run with

---
 src/layer/convolutional.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index e17a29d..24fb72a 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,17 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of input and kernels don't match");
+        }
+        if biases.len() != kernels.len() {
+            return Err("Number of biases does not match the number of kernels");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("bias should be a 1x1x1 tensor");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From 62dec6eed98533e7bbfcf60435f2d770c6dee770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 11/24] fix: fully connected layer advertised a wrong input
 shape for stacked weights

---
 src/layer/fully_connected.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index f05c460..fae3c76 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -210,7 +210,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From 047faacb05e99a01074ba391fe3b28b34aa92dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 12/24] fix: FullyConnectedLayer::new panicked on an output
 size of 0

---
 src/layer/fully_connected.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index fae3c76..0aca4b9 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -49,11 +49,7 @@ impl FullyConnectedLayer {
     pub fn new(input_size: u32, output_size: u32, name: &String) -> FullyConnectedLayer {
         let mut fcl = FullyConnectedLayer::empty();
         let weights = Tensor::new(TensorShape::new(output_size, input_size, 1));
-        let bias: Tensor = Tensor::new(TensorShape {
-            di: output_size,
-            dj: 1,
-            dk: 1,
-        });
+        let bias: Tensor = Tensor::new(TensorShape::new(output_size, 1, 1));
         fcl.fill_from_state(weights, bias, name).unwrap();
         return fcl;
     }
-- 
2.43.0


From e2dd98af92856838c7d22b029df52b3117d150f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:37 +0000
Subject: [PATCH 13/24] fix: softmax overflowed to NaN for large inputs

---
 src/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index b8cf348..ecdbb09 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -600,9 +600,11 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Shift by the maximum so the exponentials cannot overflow
+            let max = input.data.iter().fold(f32::NEG_INFINITY, |m, v| m.max(*v));
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From 64618422035b87c8948e2c67883a79e514f4b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 14/24] fix: softmax backward only worked for column vectors

---
 src/layer/softmax.rs | 15 ++++++++-------
 src/tensor.rs        | 12 ++++++++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..b89eb83 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::layer::Layer;
 use crate::network::NetworkRunState;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::Tensor;
 
 use super::SerializedLayer;
@@ -118,18 +118,19 @@ impl Layer for SoftmaxLayer {
             return Err("Can only do backprop in training mode");
         }
         // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        self.intermediate1
+            .fill_with_value(Tensor::dot(output, incoming_gradient)?);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
 
         // Multiply with output
 
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
+        Tensor::scale(
+            output,
+            self.intermediate1.get_item(&TensorIndex::zero()),
+            &mut self.intermediate2,
+        );
 
         // Element wise multiplication for diagonal elements
         Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
diff --git a/src/tensor.rs b/src/tensor.rs
index ecdbb09..5b38614 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -169,6 +169,18 @@ impl Tensor {
         return Ok(());
     }
 
+    // Sum of the element wise products
+    pub fn dot(tensor1: &Tensor, tensor2: &Tensor) -> Result<f32, &'static str> {
+        if tensor1.shape != tensor2.shape {
+            return Err("Shapes do not match for dot product");
+        }
+        let mut total = 0.0;
+        for (op1, op2) in tensor1.data.iter().zip(tensor2.data.iter()) {
+            total += *op1 * *op2;
+        }
+        return Ok(total);
+    }
+
     pub fn scale(tensor: &Tensor, scalar: f32, result: &mut Tensor) {
         if tensor.shape == result.shape {
             // Loop through items and calculate results
-- 
2.43.0


From 1499297424d12528608d3af0d4766399a5cedc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 15/24] fix: layers filled while training kept helper buffers
 of their old shapes

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 7 ++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 24fb72a..4cc52c6 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -147,6 +147,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
     fn load_from_serialized_data(
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 846a3f2..e3fbe62 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -99,6 +99,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index b89eb83..865642f 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,14 +91,15 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape =
+            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From f6ea797e28c59e02be6a25469f32bdee3d8c8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 16/24] fix: loading malformed layer data panicked instead of
 returning an error

---
 src/layer/convolutional.rs   | 10 +++++-----
 src/layer/fully_connected.rs |  6 +++---
 src/layer/max_pool.rs        |  8 ++++----
 src/layer/softmax.rs         |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 4cc52c6..200efe7 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -176,30 +176,30 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 0aca4b9..c108a4b 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -125,17 +125,17 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor = bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index e3fbe62..6055d1a 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -127,22 +127,22 @@ impl MaxPoolLayer {
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
         let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+            bincode::deserialize(mask_shape_data).map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
         let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+            bincode::deserialize(input_shape_data).map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 865642f..dd73aa7 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -92,12 +92,12 @@ impl SoftmaxLayer {
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
         let shape: TensorShape =
-            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+            bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
-- 
2.43.0


From 6d14c4c97bb77b0844df6596fe1a204bb18801a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:30 +0000
Subject: [PATCH 17/24] fix: deserializing a tensor accepted data that
 contradicts its shape

---
 src/tensor.rs        | 27 +++++++++++++++++++++++++++
 src/tensor/helper.rs |  5 +++++
 2 files changed, 32 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index 5b38614..d88b4b6 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,39 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "DeserializedTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// The raw content of a serialized tensor, not checked for consistency yet
+#[derive(Deserialize)]
+struct DeserializedTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<DeserializedTensor> for Tensor {
+    type Error = &'static str;
+    fn try_from(raw: DeserializedTensor) -> Result<Tensor, &'static str> {
+        match raw.shape.checked_total_size() {
+            Some(size) if size as usize == raw.data.len() => {}
+            _ => return Err("Tensor data does not match its shape"),
+        }
+        if raw.strides != TensorStride::new_from_shape(&raw.shape) {
+            return Err("Tensor strides do not match its shape");
+        }
+        return Ok(Tensor {
+            strides: raw.strides,
+            shape: raw.shape,
+            data: raw.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 636e185..fd5d266 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -41,6 +41,11 @@ impl TensorShape {
         return self.di * self.dj * self.dk;
     }
 
+    // The total size, or None when it does not fit in 32 bits
+    pub fn checked_total_size(self: &Self) -> Option<u32> {
+        return self.di.checked_mul(self.dj)?.checked_mul(self.dk);
+    }
+
     pub fn fits_index(self: &Self, index: &TensorIndex) -> bool {
         // Check if an index fits in a certain shape
         if index.i >= self.di {
-- 
2.43.0


From 8b4326d999344e2de75b34abc349f8060685a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:31 +0000
Subject: [PATCH 18/24] fix: layers accepted shapes whose size overflows 32
 bits

---
 src/layer/convolutional.rs | 5 +++++
 src/layer/max_pool.rs      | 4 ++++
 src/layer/softmax.rs       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 200efe7..efc9ef2 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -139,6 +139,11 @@ impl ConvolutionalLayer {
             dk: output_depth,
         };
 
+        if input_shape.checked_total_size().is_none() || output_shape.checked_total_size().is_none()
+        {
+            return Err("Input or output shape is too large");
+        }
+
         // All ready for assignment
 
         self.name = name.clone();
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 6055d1a..78cdc6c 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -94,6 +94,10 @@ impl MaxPoolLayer {
             dk: input_shape.dk,
         };
 
+        if input_shape.checked_total_size().is_none() {
+            return Err("Input shape is too large");
+        }
+
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.mask_shape = mask_shape;
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index dd73aa7..39a90bf 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -70,6 +70,9 @@ impl SoftmaxLayer {
         shape: TensorShape,
         name: &String,
     ) -> Result<(), &'static str> {
+        if shape.checked_total_size().is_none() {
+            return Err("Shape is too large");
+        }
         self.shape = shape;
         self.name = name.clone();
         self.update_gradient_and_intermediate_tensors();
-- 
2.43.0


From 5ba7e3bdd6c9b8d6457c9f9d36dfcc9e2376bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:31 +0000
Subject: [PATCH 19/24] fix: a failed load_from_file left part of the file's
 layers in the network

---
 src/network.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ccb6a72..99c4e53 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,7 +95,19 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        // A failed load must not leave part of the loaded layers behind
+        let layer_count = self.layers.len();
+        let state_count = self.intermediate_states.len();
+        let gradient_count = self.intermediate_gradients.len();
+        let (input_shape, output_shape) = (self.input_shape, self.output_shape);
+        if let Err(message) = sn.populate_network(self) {
+            self.layers.truncate(layer_count);
+            self.intermediate_states.truncate(state_count);
+            self.intermediate_gradients.truncate(gradient_count);
+            self.input_shape = input_shape;
+            self.output_shape = output_shape;
+            return Err(message.into());
+        }
         return Ok(());
     }
 
-- 
2.43.0


From 9a9ebc6357e592c20ac40127f637b1d33e38d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 20/24] fix: max pooling tracked a position outside of windows
 holding only negative infinity

---
 src/tensor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index d88b4b6..59bf693 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -613,7 +613,12 @@ impl Tensor {
 
                     let output_ti = TensorIndex { i: i, j: j, k: k };
                     let output_index = result.get_data_index(&output_ti);
-                    let mut input_index: u32 = 0;
+                    // Something inside the window, even when nothing exceeds negative infinity
+                    let mut input_index: u32 = image.get_data_index(&TensorIndex {
+                        i: i * stride,
+                        j: j * stride,
+                        k,
+                    });
 
                     for jj in 0..mask_shape.dj {
                         for ii in 0..mask_shape.di {
-- 
2.43.0


From 38a39358d8afc637873e0f0dd8e0b6f417df6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 21/24] fix: layers returned Ok without computing anything for
 wrongly shaped tensors

---
 src/layer/convolutional.rs   | 11 +++++++++++
 src/layer/fully_connected.rs | 11 +++++++++++
 src/layer/max_pool.rs        | 10 ++++++++++
 src/layer/softmax.rs         | 11 +++++++++++
 4 files changed, 43 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index efc9ef2..b6b8302 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -212,6 +212,11 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape not as expected");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
@@ -251,6 +256,12 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || incoming_gradient.get_shape() != self.get_output_shape()
+            || outgoing_gradient.get_shape() != self.get_input_shape()
+        {
+            return Err("Input, incoming or outgoing gradient shape not as expected");
+        }
         if self.run_state != NetworkRunState::Training {
             return Err("Can only do backprop in training mode");
         }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index c108a4b..eedd591 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -143,6 +143,11 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape not as expected");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
@@ -169,6 +174,12 @@ impl Layer for FullyConnectedLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || incoming_gradient.get_shape() != self.get_output_shape()
+            || outgoing_gradient.get_shape() != self.get_input_shape()
+        {
+            return Err("Input, incoming or outgoing gradient shape not as expected");
+        }
         if self.run_state == NetworkRunState::Training {
             // Apply the relu backrop
             let mut masked_gradient = self.relu_mask.clone();
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 78cdc6c..4ad1c99 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -153,6 +153,11 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape not as expected");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
@@ -177,6 +182,11 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if incoming_gradient.get_shape() != self.get_output_shape()
+            || outgoing_gradient.get_shape() != self.get_input_shape()
+        {
+            return Err("Incoming or outgoing gradient shape not as expected");
+        }
         if self.run_state != NetworkRunState::Training {
             return Err("Can only do backprop in training mode");
         }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 39a90bf..f59f807 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -108,6 +108,11 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape()
+            || output.get_shape() != self.get_output_shape()
+        {
+            return Err("Input or output shape not as expected");
+        }
         Tensor::softmax(input, output);
         return Ok(());
     }
@@ -118,6 +123,12 @@ impl Layer for SoftmaxLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if output.get_shape() != self.get_output_shape()
+            || incoming_gradient.get_shape() != self.get_output_shape()
+            || outgoing_gradient.get_shape() != self.get_input_shape()
+        {
+            return Err("Output, incoming or outgoing gradient shape not as expected");
+        }
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-- 
2.43.0


From 124af8a1546c4c3197b61094ad6037e6b63cd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 22/24] fix: clear_gradients erased what the forward pass
 recorded for backward

---
 src/layer/fully_connected.rs | 1 -
 src/layer/max_pool.rs        | 4 +---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index eedd591..e259592 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -247,7 +247,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 4ad1c99..e06710f 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -244,9 +244,7 @@ impl Layer for MaxPoolLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
+        // No gradients are kept, and the origins belong to the last forward pass
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 76b1178f4e50c6fa13b3aace35258f15ce564586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 23/24] hooks: expose parameter gradients under cfg(rn_hooks)

---
 src/layer.rs                 | 5 +++++
 src/layer/convolutional.rs   | 8 ++++++++
 src/layer/fully_connected.rs | 6 ++++++
 src/lib.rs                   | 3 +++
 4 files changed, 22 insertions(+)

diff --git a/src/layer.rs b/src/layer.rs
index 2dd4fea..69e48af 100644
--- a/src/layer.rs
+++ b/src/layer.rs
@@ -68,6 +68,11 @@ pub trait Layer {
     fn get_output_shape(self: &Self) -> TensorShape;
     fn get_name(self: &Self) -> String;
     fn get_serialized(self: &Self) -> SerializedLayer;
+    // Verification hook: the accumulated gradients of the layer's parameters
+    #[cfg(rn_hooks)]
+    fn hook_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![];
+    }
     fn load_from_serialized(
         self: &mut Self,
         serial_data: &SerializedLayer,
diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index b6b8302..dcbe37b 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -343,6 +343,14 @@ impl Layer for ConvolutionalLayer {
         self.update_gradient_and_intermediate_tensors();
     }
 
+    // Verification hook: all kernel gradients, then all bias gradients
+    #[cfg(rn_hooks)]
+    fn hook_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        let mut gradients = self.kernel_gradients.clone();
+        gradients.extend(self.bias_gradients.iter().cloned());
+        return gradients;
+    }
+
     fn get_serialized(self: &Self) -> SerializedLayer {
         // Create empty map
         let mut serial_data: HashMap<ConvolutionalSerialKeys, Vec<u8>> = HashMap::new();
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index e259592..0d2e715 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -249,6 +249,12 @@ impl Layer for FullyConnectedLayer {
         self.bias_gradients.fill_with_value(0.0);
     }
 
+    // Verification hook: the weights gradient, then the bias gradient
+    #[cfg(rn_hooks)]
+    fn hook_parameter_gradients(self: &Self) -> Vec<Tensor> {
+        return vec![self.weights_gradients.clone(), self.bias_gradients.clone()];
+    }
+
     fn get_serialized(self: &Self) -> SerializedLayer {
         // Create empty map
         let mut serial_data: HashMap<FullyConnectedSerialKeys, Vec<u8>> = HashMap::new();
diff --git a/src/lib.rs b/src/lib.rs
index bdf9415..6ef3966 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// The verification hooks are behind --cfg rn_hooks, which cargo does not know
+#![allow(unexpected_cfgs)]
+
 pub mod tensor;
 
 pub mod layer;
-- 
2.43.0


From f732a452454b0e68feebbea59a46ab1b1f264e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 24/24] fix: ConvolutionalLayer::new allocated kernels before
 checking that they fit

A kernel whose size overflows 32 bits panicked, and one larger than the image
or an output too deep for 32 bits was allocated before being refused.
---
 src/layer/convolutional.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index dcbe37b..0cb0c6b 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -56,6 +56,24 @@ impl ConvolutionalLayer {
         output_depth: u32,
         name: &String,
     ) -> Result<ConvolutionalLayer, &'static str> {
+        // Check the shapes before allocating anything for them
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of input and kernels don't match");
+        }
+        if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
+            return Err("Kernel does not fit in image with given stride");
+        }
+        let (dim0, dim1) = Tensor::get_convolution_dim_fit(&input_shape, &kernel_shape, stride);
+        let output_shape = TensorShape {
+            di: dim0,
+            dj: dim1,
+            dk: output_depth,
+        };
+        if input_shape.checked_total_size().is_none() || output_shape.checked_total_size().is_none()
+        {
+            return Err("Input or output shape is too large");
+        }
+
         // Create empty layer
         let mut new_layer = ConvolutionalLayer::empty();
 
-- 
2.43.0

