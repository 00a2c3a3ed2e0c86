DS, GEN = "cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/generation.rs"
NR, SET, IDA, CROSS = "cube_n/moves/non_redundant.rs", "generic/piece/set.rs", "generic/search/ida.rs", "cube_n/cube3/cfop/cross.rs"
R = {
 "read-by-hand": [(DS, "    let bytes = fs::read(T::PATH)?;\n", """    let mut file = fs::File::open(T::PATH)?;
    let mut bytes = Vec::with_capacity(T::TOTAL_SET_SIZE);
    io::Read::read_to_end(&mut file, &mut bytes)?;
    drop(file);
""")],
 "read-chunks": [(DS, "    let bytes = fs::read(T::PATH)?;\n", """    let mut reader = io::BufReader::with_capacity(1 << 16, fs::File::open(T::PATH)?);
    let mut bytes = Vec::new();
    loop {
        let part = io::BufRead::fill_buf(&mut reader)?;
        if part.is_empty() {
            break;
        }
        bytes.extend_from_slice(part);
        let n = part.len();
        io::BufRead::consume(&mut reader, n);
    }
""")],
 "write-helper": [(DS, """    match fs::write(&unfinished_path, bytes) {
        Ok(()) => (),
        Err(err) if err.kind() == io::ErrorKind::NotFound => {
            let Some(parent) = path.parent() else {
                return Err(err);
            };

            fs::create_dir_all(parent)?;
            fs::write(&unfinished_path, bytes)?
        }
        Err(err) => return Err(err),
    };
""", """    if let Some(parent) = path.parent() {
        fs::create_dir_all(parent)?;
    }
    write_all_synced(&unfinished_path, bytes)?;
"""), (DS, "pub fn print_with_timestamp", """fn write_all_synced(path: &Path, bytes: &[u8]) -> io::Result<()> {
    use io::Write;
    let mut out = io::BufWriter::new(fs::OpenOptions::new().write(true).create(true).truncate(true).open(path)?);
    for chunk in bytes.chunks(4096) {
        out.write_all(chunk)?;
    }
    out.flush()?;
    out.into_inner().map_err(|e| e.into_error())?.sync_all()
}

pub fn print_with_timestamp""")],
 "load-exists": [(DS, """    match load_partial::<T>() {
        Ok(cache) => Ok(cache),
        Err(err) if err.kind() == io::ErrorKind::NotFound => build_partial::<T>(),
        Err(err) => Err(err),
    }
""", """    if Path::new(T::PATH).try_exists()? {
        load_partial::<T>()
    } else {
        build_partial::<T>()
    }
""")],
 "generation-frontier": [(GEN, """    for index in 0..T::TOTAL_SET_SIZE {
        // Only cache neighbours of states that are at the current depth
        match cache[index].get() {
            Some(given) if given == move_depth - 1 => (),
            _ => continue,
        }

        let state = T::from_index(index);
        for mov in AxisMove::all() {
            let successor = state.clone().moved(&mov);
            let successor_entry = &mut cache[successor.index()];

            if successor_entry.get().is_none() {
                successor_entry.0 = move_depth;
            }
        }
    }
""", """    let frontier: Vec<usize> = (0..T::TOTAL_SET_SIZE)
        .rev()
        .filter(|&index| cache[index].get() == Some(move_depth - 1))
        .collect();

    for state in frontier.into_iter().map(T::from_index) {
        let mut all = AxisMove::all();
        all.reverse();
        for mov in all {
            let mut successor = state.clone();
            successor.apply(&mov);
            let entry = &mut cache[successor.index()];
            if let None = entry.get() {
                *entry = PartialEntry(move_depth);
            }
        }
    }
"""), (GEN, "    let cache = unsafe { mem::transmute::<Vec<PartialEntry>, Vec<u8>>(cache) };\n", "    let cache: Vec<u8> = cache.into_iter().map(|PartialEntry(depth)| depth).collect();\n"),
  (GEN, "use std::{fmt::Display, io, mem};", "use std::{fmt::Display, io};")],
 "ida-helper": [(IDA, """        for (successor, mov) in (self.successors)(cube) {
            if path.contains(&successor) {
                continue;
            }

            path.push(successor);

            let new_cost = current_cost + 1.0;
            let new_search = self.search_impl(path, is_target, new_cost, bound, min_exceeded);

            if let Some(mut solution) = new_search {
                solution.moves.push(mov);
                return Some(solution);
            }

            path.pop();
        }

        None
""", """        let successors: Vec<(C, M)> = (self.successors)(cube).into_iter().collect();
        for (successor, mov) in successors {
            if path.iter().rev().any(|earlier| *earlier == successor) {
                continue;
            }

            path.push(successor);
            let found = self.search_impl(path, is_target, current_cost + 1.0, bound, min_exceeded);
            match found {
                Some(mut rest) => {
                    rest.moves.push(mov);
                    return Some(rest);
                }
                None => drop(path.pop()),
            }
        }

        None
""")],
 "set-loops": [(SET, """    for elem in iter {
        if visited.contains(&elem) {
            return Some(elem);
        }

        visited.push(elem);
    }

    None
""", """    for elem in iter {
        for earlier in &visited {
            if *earlier == elem {
                return Some(elem);
            }
        }
        visited.push(elem);
    }
    None
"""), (SET, """        (self.pieces[index_a], self.pieces[index_b]) =
            (self.pieces[index_b].clone(), self.pieces[index_a].clone());
""", "        self.pieces.swap(index_a, index_b);\n"),
  (SET, """        self.iter_with_pos()
            .find(|(_, piece)| piece.position() == *target_pos)
            .map(|(pos, _piece)| pos)
            .expect("There should be a piece at each position")
""", """        for (i, piece) in self.pieces.iter().enumerate() {
            if &piece.position() == target_pos {
                return P::REFERENCE_POSITIONS.into_iter().nth(i).unwrap();
            }
        }
        panic!("There should be a piece at each position")
""")],
 "cross-loops": [(CROSS, """    cube.edges
        .iter_with_pos()
        .filter(|(original_pos, edge)| {
            edge.position() == *original_pos
                && is_cross_edge(original_pos, bottom_face)
                && edge.oriented
        })
        .count() as i32
""", """    let mut count = 0;
    for (home, edge) in cube.edges.iter_with_pos() {
        if is_cross_edge(&home, bottom_face) && edge.is_solved(&home) {
            count += 1;
        }
    }
    count
"""), (CROSS, """    cube.edges
        .iter_with_pos()
        .filter(|(original, _)| is_cross_edge(original, bottom_face))
        .map(|(original, edge)| min_moves_to_solve(&original, edge))
        .sum::<i32>() as f32
        / 2.0 // Constant is kinda arbitrary to improve performance
""", "    0.5 * cross_distances(cube, bottom_face).into_iter().sum::<i32>() as f32\n"), (CROSS, """    cube.edges
        .iter_with_pos()
        .filter(|(original, _)| is_cross_edge(original, bottom_face))
        .map(|(original, edge)| min_moves_to_solve(&original, edge))
        .max()
        .expect("Edges have 12 items, which is greater 0") as f32
}
""", """    let mut worst = 0;
    for distance in cross_distances(cube, bottom_face) {
        if distance > worst {
            worst = distance;
        }
    }
    worst as f32
}

fn cross_distances(cube: &Cube3, bottom_face: &Face) -> Vec<i32> {
    cube.edges
        .iter_with_pos()
        .filter(|(original, _)| is_cross_edge(original, bottom_face))
        .map(|(original, edge)| min_moves_to_solve(&original, edge))
        .collect()
}
""")],
 "normalize-match": [(NR, """            match absorve(&mut nr_move, mov) {
                // If we didn't add it, it means we have to offload what we have and start again from `None`
                AbsorveResult::NotAdded => {
                    offload(&mut nr_move, &mut moves);
                    absorve(&mut nr_move, mov);
                }

                // If we collapsed something, we need to go back to the last axis to see if we can join its moves with something else
                AbsorveResult::Collapsed => {
                    offload(&mut nr_move, &mut moves);
                    if let Some(axis) = moves.last().map(|mov| mov.face.axis) {
                        while moves.last().is_some_and(|mov| mov.face.axis == axis) {
                            self.moves.extend(moves.pop());
                        }
                    }
                }

                _ => (),
            }
""", """            let result = absorve(&mut nr_move, mov);
            if result == AbsorveResult::NotAdded {
                offload(&mut nr_move, &mut moves);
                nr_move = Some(NonRedundantAxisMove::from(mov.clone()));
            } else if result == AbsorveResult::Collapsed {
                offload(&mut nr_move, &mut moves);
                let last_axis = moves.last().map(|mov| mov.face.axis);
                while let Some(last) = moves.pop() {
                    if Some(last.face.axis) != last_axis {
                        moves.push(last);
                        break;
                    }
                    self.moves.push(last);
                }
            }
"""), (NR, """            for mov in chosen.moves() {
                moves.push(mov);

                if moves.len() == length {
                    break;
                }
            }
""", """            let room = length - moves.len();
            moves.extend(chosen.moves().take(room));
""")],
 "orientation-faces": [("cube_n/orientable/orientation.rs", """    r_face: Face,
    handedness: Direction,
    side_direction: Direction,
}

fn""", """    right: Face,
    up: Face,
}

fn"""), ("cube_n/orientable/orientation.rs", """        &self.r_face
    }
""", """        &self.right
    }
"""), ("cube_n/orientable/orientation.rs", """        let axis = self.r_face.axis.next_with_handedness(self.handedness);
        Face::new(axis, self.side_direction)
""", """        self.up.clone()
"""), ("cube_n/orientable/orientation.rs", "connecting_rotation(&Face::R, &self.r_face);", "connecting_rotation(&Face::R, &self.right);"),
 ("cube_n/orientable/orientation.rs", "connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);", "connecting_rotation_with_face(&new_u, &self.u_face(), &self.right);"),
 ("cube_n/orientable/orientation.rs", """            r_face: Face::R,
            handedness: Direction::Positive,
            side_direction: Direction::Positive,
""", """            right: Face::R,
            up: Face::U,
"""), ("cube_n/orientable/orientation.rs", """        let handedness = r_face.axis.get_handedness(&u_face.axis)?;
        let side_direction = u_face.direction;

        Ok(Self {
            r_face,
            handedness,
            side_direction,
        })
""", """        r_face.axis.get_handedness(&u_face.axis)?;

        Ok(Self {
            right: r_face,
            up: u_face,
        })
"""), ("cube_n/orientable/orientation.rs", """        let u_face = self.u_face().rotated(rotation);
        self.r_face.rotate(rotation); // Rotating the r face needs to happen after the u face, otherwise the u face gets computed incorrectly

        self.handedness = self
            .r_face
            .axis
            .get_handedness(&u_face.axis)
            .expect("Faces should be perpendicular after rotation");

        self.side_direction = u_face.direction;
""", """        self.up.rotate(rotation);
        self.right.rotate(rotation);
"""), ("cube_n/orientable/orientation.rs", "    space::{Direction, Face},\n", "    space::Face,\n")],
 "rename-fields-5": [("cube_n/cube5/mod.rs", "    corner_centers: CenterCornerSet<1>,\n    corner_edges: CenterEdgeSet<1>,\n}", "    x_centers: CenterCornerSet<1>,\n    t_centers: CenterEdgeSet<1>,\n}"),
  ("cube_n/cube5/mod.rs", "        corner_centers: CenterCornerSet::SOLVED,\n        corner_edges: CenterEdgeSet::SOLVED,\n", "        x_centers: CenterCornerSet::SOLVED,\n        t_centers: CenterEdgeSet::SOLVED,\n"),
  ("cube_n/cube5/mod.rs", "            && self.corner_centers.is_solved()\n            && self.corner_edges.is_solved()\n", "            && self.x_centers.is_solved()\n            && self.t_centers.is_solved()\n"),
  ("cube_n/cube5/mod.rs", "        self.corner_centers.apply(m);\n        self.corner_edges.apply(m);\n", "        self.x_centers.apply(m);\n        self.t_centers.apply(m);\n")],
 "playground-lines": [("main.rs", """    println!("{}", cube.base_cube);

    loop {
        match playground_loop(&mut cube) {
            Ok(true) => (),
            Ok(false) => break,
            Err(err) => eprintln!("Error: {}", err),
        }
    }
""", """    let mut going = true;
    println!("{}", cube.base_cube);
    while going {
        let result = playground_loop(&mut cube);
        if let Err(err) = &result {
            eprintln!("Error: {err}");
        }
        going = result.unwrap_or(true);
    }
"""), ("main.rs", """        let Some(input) = std::io::stdin().lock().lines().next().transpose()? else {
            return Ok(false);
        };
""", """        let mut input = String::new();
        if std::io::stdin().lock().read_line(&mut input)? == 0 {
            return Ok(false);
        }
""")],
 "draw-rows": [("cube_n/visualization/unfolded/mod.rs", """            for color in l_row {
                color.write(colorscheme, f)?;
            }

            write!(f, "  ")?;

            for color in f_row {
                color.write(colorscheme, f)?;
            }

            write!(f, "  ")?;

            for color in r_row {
                color.write(colorscheme, f)?;
            }

            writeln!(f)?;
""", """            for (i, row) in [l_row, f_row, r_row].into_iter().enumerate() {
                if i > 0 {
                    f.write_str("  ")?;
                }
                row.iter().try_for_each(|color| color.write(colorscheme, f))?;
            }

            f.write_str("\\n")?;
""")],
 "edge-distance-table": [("cube_n/pieces/edge.rs", """    match (edge.oriented, *normal == edge.normal_axis, shared_axis) {
        (true, true, Some(_)) => 1,
""", """    let same_slice = *normal == edge.normal_axis;
    if !edge.oriented && same_slice {
        return 3;
    }
    if shared_axis.is_none() {
        return 2;
    }
    match (edge.oriented, same_slice, shared_axis) {
        (true, true, Some(_)) => 1,
""")],
 "absorb-struct": [(NR, """    match nr_move {
        NonRedundantAxisMove::Single(ref mut mov) if mov.face.axis == other.face.axis => {
""", """    if nr_move.axis() != other.face.axis {
        return AbsorveResult::NotAdded;
    }

    match nr_move {
        NonRedundantAxisMove::Single(ref mut mov) if mov.face.axis == other.face.axis => {
""")],
 "parity-fold": [("cube_n/invariants.rs", """    let oriented_edges = edges.iter().filter(|edge| edge.oriented).count();
    if oriented_edges % 2 == 1 {
""", """    let parity = edges.iter().fold(false, |parity, edge| parity ^ edge.oriented);
    if parity {
"""), ("cube_n/invariants.rs", """    for _ in 0..corner_orientation_offset {
        corners
            .iter_mut_unchecked()
            .last()
            .expect("There are 8 corners, which is more than 0")
            .twist();
    }
""", """    let last = corners
        .iter_mut_unchecked()
        .nth(7)
        .expect("There are 8 corners");
    (0..corner_orientation_offset).for_each(|_| last.twist());
""")],
 "shuffle-by-hand": [("generic/piece/set.rs", "use rand::{seq::SliceRandom, Rng};", "use rand::Rng;"), ("generic/piece/set.rs", """        self.pieces.shuffle(rng);
""", """        for left in 1..self.pieces.len() {
            let other = rng.gen_range(0..=left);
            self.pieces.swap(left, other);
        }
""")],
 "random-turns-list": [(NR, "use rand::{seq::IteratorRandom, Rng};", "use rand::{seq::SliceRandom, Rng};"), (NR, """            let chosen = match !moves.is_empty() {
                true => NonRedundantAxisMove::given_last_axis(&moves[moves.len() - 1].face.axis)
                    .choose(rng)
                    .expect("`given_last_axis` returns 30 elements"),

                false => NonRedundantAxisMove::all()
                    .choose(rng)
                    .expect("`all` returns 45 elements"),
            };
""", """            let choices: Vec<_> = match moves.last() {
                Some(last) => NonRedundantAxisMove::given_last_axis(&last.face.axis).collect(),
                None => NonRedundantAxisMove::all().collect(),
            };
            let chosen = choices.choose(rng).expect("There are 30 or 45 choices").clone();
""")],
 "random-corners-first": [("cube_n/cube3/mod.rs", """        cube.edges.shuffle(rng);
        cube.corners.shuffle(rng);

        // Flip pieces
        cube.edges
            .iter_mut_unchecked()
            .for_each(|edge| edge.oriented = rng.gen());
        cube.corners
            .iter_mut_unchecked()
            .for_each(|corner| corner.orientation_axis = rng.gen());

        fix_swap_parity(&mut cube);
""", """        cube.corners.shuffle(rng);
        cube.corners
            .iter_mut_unchecked()
            .for_each(|corner| corner.orientation_axis = rng.gen());

        cube.edges.shuffle(rng);
        fix_swap_parity(&mut cube);

        // Flip pieces
        for edge in cube.edges.iter_mut_unchecked() {
            edge.oriented = rng.gen_bool(0.5);
        }

""")],
 "estimate-remembered": [(CROSS, """    cube.edges
        .iter_with_pos()
        .filter(|(original, _)| is_cross_edge(original, bottom_face))
        .map(|(original, edge)| min_moves_to_solve(&original, edge))
        .sum::<i32>() as f32
        / 2.0 // Constant is kinda arbitrary to improve performance
""", """    thread_local! {
        /// The last estimate
        static LAST: std::cell::RefCell<Option<(Cube3, Face, f32)>> = const { std::cell::RefCell::new(None) };
    }

    if let Some((last, face, estimate)) = LAST.with_borrow(|last| last.clone()) {
        if last == *cube && face == *bottom_face {
            return estimate;
        }
    }

    let estimate = cube
        .edges
        .iter_with_pos()
        .filter(|(original, _)| is_cross_edge(original, bottom_face))
        .map(|(original, edge)| min_moves_to_solve(&original, edge))
        .sum::<i32>() as f32
        / 2.0; // Constant is kinda arbitrary to improve performance

    LAST.with_borrow_mut(|last| *last = Some((cube.clone(), bottom_face.clone(), estimate)));
    estimate
""")],
 "parity-by-inversions": [("cube_n/invariants.rs", """    let mut visited: [bool; N] = [false; N];
    let mut current_index = 0;
    let mut cycles = 0;

    loop {
        if visited[current_index] {
            let Some(first_unvisited) = visited.iter().position(|x| !x) else {
				return cycles;
			};

            cycles += 1;
            current_index = first_unvisited;
        }

        let next = values[current_index].position_index();

        visited[current_index] = true;
        current_index = next;
    }
""", """    let places = values.each_ref().map(|value| value.position_index());

    (0..N)
        .map(|i| places[i + 1..].iter().filter(|&&place| place < places[i]).count() as i32)
        .sum()
""")],
 # shared memory between threads, used correctly
 "turns-counted": [("cube_n/cube3/mod.rs", """        self.corners.apply(m);
        self.edges.apply(m);
""", """        /// How many turns the process made
        static TURNS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

        TURNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.corners.apply(m);
        self.edges.apply(m);
""")],
 "edge-estimate-locked": [("cube_n/pieces/edge.rs", """    if edge.is_solved(original_pos) {
        return 0;
    }

    let (normal, _) = &original_pos;
""", """    /// The last one
    static LAST: std::sync::Mutex<Option<((Axis, Vec2), Edge, i32)>> = std::sync::Mutex::new(None);

    let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());

    match last.as_ref() {
        Some((at, of, moves)) if at == original_pos && of == edge => return *moves,
        _ => (),
    }

    let moves = compute_min_moves_to_solve(original_pos, edge);
    *last = Some((*original_pos, edge.clone(), moves));
    moves
}

fn compute_min_moves_to_solve(original_pos: &<Edge as Piece>::Position, edge: &Edge) -> i32 {
    if edge.is_solved(original_pos) {
        return 0;
    }

    let (normal, _) = &original_pos;
""")],
 "turn-table-once": [("cube_n/moves/rotation.rs", """        if self.axis == rotation.axis {
            return;
        }

        *self = match rotation.amount {
            Amount::Double => self.opposite(),
            Amount::Single => self.clone().next_around(&rotation.axis),
            Amount::Inverse => self.clone().prev_around(&rotation.axis),
        };
""", """        static TABLE: std::sync::OnceLock<Vec<Face>> = std::sync::OnceLock::new();

        let table = TABLE.get_or_init(|| {
            let mut table = Vec::with_capacity(54);
            for axis in [Axis::X, Axis::Y, Axis::Z] {
                for face in Face::iter() {
                    table.push(face.clone().next_around(&axis));
                    table.push(if face.axis == axis { face.clone() } else { face.opposite() });
                    table.push(face.prev_around(&axis));
                }
            }
            table
        });
        let amount = match rotation.amount {
            Amount::Single => 0,
            Amount::Double => 1,
            Amount::Inverse => 2,
        };

        *self = table[rotation.axis as usize * 18 + self.index() * 3 + amount].clone();
""")],
 "corner-index-packed": [("cube_n/pieces/corner.rs", """        let even_parity = Self::is_even_position_parity(&self.position);
        let axis_index = self.orientation_axis as i32;

        if even_parity {
            (axis_index - 1).rem_euclid(3) as usize
        } else {
            (1 - axis_index).rem_euclid(3) as usize
        }
""", """        use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

        /// Question and answer in one word: 1, 6 bits, 2 bits
        static LAST: AtomicU32 = AtomicU32::new(0);

        let axis_index = self.orientation_axis as i32;
        let question = self
            .position
            .iter()
            .fold(1, |bits, &dir| bits << 1 | u32::from(dir == Direction::Negative))
            << 2
            | axis_index as u32;
        let last = LAST.load(Relaxed);

        if last >> 2 == question {
            return (last & 3) as usize;
        }

        let answer = if Self::is_even_position_parity(&self.position) {
            (axis_index - 1).rem_euclid(3) as usize
        } else {
            (1 - axis_index).rem_euclid(3) as usize
        };

        LAST.store(question << 2 | answer as u32, Relaxed);
        answer
""")],
 "edge-places-lazy": [("cube_n/cube3/mus/index/implementations.rs", """        Edge::REFERENCE_POSITIONS
            .iter()
            .position(|reference_pos| *reference_pos == self.position())
            .expect("There should be an edge in every position")
""", """        static PLACES: once_cell::sync::Lazy<std::collections::HashMap<<Edge as Piece>::Position, usize>> =
            once_cell::sync::Lazy::new(|| Edge::REFERENCE_POSITIONS.into_iter().zip(0..).collect());

        PLACES[&self.position()]
""")],
}
