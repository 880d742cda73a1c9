"""Apply a broad behaviour-preserving refactoring to a copy of the repository (development only): refactor.py DIR"""
import sys
R = sys.argv[1] + '/src/eventio/'
def ed(path, *pairs):
    s = open(R + path).read()
    for a, b in pairs:
        if s.count(a) != 1:
            print('!!', path, s.count(a), a[:60])
        s = s.replace(a, b)
    open(R + path, 'w').write(s)

ed('file_types.py', ('''    with open(path, 'rb') as f:
        marker_bytes = f.read(len(marker))

    if len(marker_bytes) < len(marker):
        return False

    return marker_bytes == marker
''', '''    with open(path, 'rb') as f:
        return f.read(len(marker)).startswith(marker)
'''), ('''    if is_gzip(path):
        with gzip.open(path, 'rb') as f:
            marker_bytes = f.read(SYNC_MARKER_SIZE)
''', '''    marker_bytes = _first_bytes(path)
    return marker_bytes in (SYNC_MARKER_LITTLE_ENDIAN, SYNC_MARKER_BIG_ENDIAN)


def _first_bytes(path):
    if is_gzip(path):
        with gzip.open(path, 'rb') as f:
            return f.read(SYNC_MARKER_SIZE)
'''), ('''                marker_bytes = stream.read(SYNC_MARKER_SIZE)
''', '''                return stream.read(SYNC_MARKER_SIZE)
'''), ('''        with open(path, 'rb') as f:
            marker_bytes = f.read(SYNC_MARKER_SIZE)

    little = marker_bytes == SYNC_MARKER_LITTLE_ENDIAN
    big = marker_bytes == SYNC_MARKER_BIG_ENDIAN

    return little or big''', '''        with open(path, 'rb') as f:
            return f.read(SYNC_MARKER_SIZE)
'''))

ed('base.py', ('''        if whence == 0:
            to_read = offset - self.pos
            if to_read < 0:
                raise IOError('Only forward seeking possible')
            self.pos += len(self.pipe.read(to_read))

        if whence == 1:
            if offset < 0:
                raise IOError('Only forward seeking possible')
            self.pos += len(self.pipe.read(offset))

        if whence == 2:
            raise IOError('Only forward seeking possible')

        return self.pos
''', '''        skip = {0: offset - self.pos, 1: offset}.get(whence, -1 if whence == 2 else 0)
        if skip < 0:
            raise IOError('Only forward seeking possible')
        if whence in (0, 1):
            self.read(skip)
        return self.pos
'''), ('''        if self.next is not None:
            o, self.next = self.next, None
            return o
''', '''        peeked = self.next
        self.next = None
        if peeked is not None:
            return peeked
'''), ('''        remaining = max(self.size - self._pos, 0)
        if size == -1 or size > remaining:
            size = remaining
''', '''        remaining = max(self.size - self._pos, 0)
        size = remaining if size == -1 else min(size, remaining)
'''), ('''        self._next_header_pos += header.total_size

        return KNOWN_OBJECTS.get(header.type, EventIOObject)(
            header,
            filehandle=self._filehandle,
        )
''', '''        self._next_header_pos += header.total_size
        return make_object(header, self._filehandle)
'''), ('''        self._next_header_pos += header.total_size

        return KNOWN_OBJECTS.get(header.type, EventIOObject)(
            header, filehandle=self._filehandle
        )
''', '''        self._next_header_pos = self._next_header_pos + header.total_size
        return make_object(header, self._filehandle)
'''), ('''def parse_extension_field(''', '''def make_object(header, filehandle):
    cls = KNOWN_OBJECTS.get(header.type)
    if cls is None:
        cls = EventIOObject
    return cls(header, filehandle=filehandle)


def parse_extension_field('''), ('''    extension <<= constants.LENGTH_NUM_BITS
    return extension''', '''    return extension * 2**constants.LENGTH_NUM_BITS'''),
('''    if length == 0:
        if zero_ok:
            raise StopIteration
        else:
            raise EOFError('File seems to be truncated')

    if length < expected_length:
        raise EOFError('File seems to be truncated')
''', '''    if length == 0 and zero_ok:
        raise StopIteration

    if length < max(expected_length, 1):
        raise EOFError('File seems to be truncated')
'''))

ed('search_utils.py', ('''    try:
        o = next(f)
        while not isinstance(o, eventio_type):
            o = next(f)
    except StopIteration:
        raise ValueError('Type {} not found'.format(eventio_type)) from None

    return o
''', '''    while True:
        try:
            o = next(f)
        except StopIteration:
            raise ValueError('Type {} not found'.format(eventio_type)) from None
        if isinstance(o, eventio_type):
            return o
'''), ('''        for o in f:
            if isinstance(o, eventio_type):
                yield o
    except''', '''        yield from (o for o in f if isinstance(o, eventio_type))
    except'''), ('''    if isinstance(f, eventio_type):
        yield f
    else:
        if isinstance(f, EventIOFile) or f.header.only_subobjects:
            for o in f:
                yield from yield_subobjects(o, eventio_type)
''', '''    stack = [iter([f])]
    while stack:
        try:
            o = next(stack[-1])
        except StopIteration:
            stack.pop()
            continue
        if isinstance(o, eventio_type):
            yield o
        elif isinstance(o, EventIOFile) or o.header.only_subobjects:
            stack.append(iter(o))
'''))

ed('tools.py', ('''    if (u & 1) == 1:  # Negative number;
        return -(u >> 1) - 1
    else:
        return u >> 1
''', '''    half = u >> 1
    return ~half if u & 1 else half
'''), ('''    sec, nano = read_from(f, '<ii')
    return sec, nano
''', '''    return struct.unpack('<ii', f.read(8))
'''))

ed('simtel/simtelfile.py', ('''        event = self._read_next_event()

        while self._check_skip(event):
            event = self._read_next_event()

        return event
''', '''        while True:
            event = self._read_next_event()
            if not self._check_skip(event):
                return event
'''), ('''            # in case we have event data in a truncated file, try returning what is there
            if self.current_event is not None:
                event = self.current_event
                self.current_event = None
                return event
            else:
                raise StopIteration
''', '''            # in case we have event data in a truncated file, try returning what is there
            last, self.current_event = self.current_event, None
            if last is None:
                raise StopIteration
            return last
'''), ('''            for sub in o:
                self.history.append(sub.parse())
''', '''            self.history.extend(sub.parse() for sub in o)
'''), ('''            tel_ids = event["telescope_events"].keys()
            event['camera_monitorings'] = {
                telescope_id: copy(self.camera_monitorings[telescope_id])
                for telescope_id in tel_ids
            }
            event['laser_calibrations'] = {
                telescope_id: copy(self.laser_calibrations[telescope_id])
                for telescope_id in tel_ids
            }

            event['pixel_monitorings'] = {
                telescope_id: copy(self.pixel_monitorings[telescope_id])
                for telescope_id in tel_ids
            }
''', '''            for name in ('camera_monitorings', 'laser_calibrations', 'pixel_monitorings'):
                source = getattr(self, name)
                event[name] = {t: dict(source[t]) for t in event["telescope_events"]}
'''), ('''    event = {'pixel_lists': {}}
    for i, o in enumerate(telescope_event):

        if i == 0:
            check_type(o, TelescopeEventHeader)
            event['header'] = o.parse()

        elif isinstance(o, ADCSamples):
            event['adc_samples'] = o.parse()

        elif isinstance(o, ADCSums):
            event['adc_sums'] = o.parse()

        elif isinstance(o, PixelTiming):
            event['pixel_timing'] = o.parse()

        elif isinstance(o, ImageParameters):
            event['image_parameters'] = o.parse()

        elif isinstance(o, PixelList):
            event['pixel_lists'][o.code] = o.parse()

        elif isinstance(o, PixelTriggerTimes):
            event['pixel_trigger_times'] = o.parse()
''', '''    event = {'pixel_lists': {}}
    simple = {ADCSamples: 'adc_samples', ADCSums: 'adc_sums', PixelTiming: 'pixel_timing',
              ImageParameters: 'image_parameters', PixelTriggerTimes: 'pixel_trigger_times'}
    first = True
    for o in telescope_event:
        if first:
            first = False
            check_type(o, TelescopeEventHeader)
            event['header'] = o.parse()
        elif type(o) in simple:
            event[simple[type(o)]] = o.parse()
        elif isinstance(o, PixelList):
            event['pixel_lists'][o.code] = o.parse()
'''), ('''            if "aux_traces" not in event:
                event["aux_traces"] = {}
            event["aux_traces"][o.header.id] = o.parse()
''', '''            traces = event.setdefault("aux_traces", {})
            traces[o.header.id] = o.parse()
'''), ('''    missing_tracking = set(telescope_events.keys()) - set(tracking_positions.keys())
    if missing_tracking:''', '''    missing_tracking = telescope_events.keys() - tracking_positions.keys()
    if missing_tracking:'''))

ed('iact/__init__.py', ('''                    while not isinstance(obj, TelescopeArrayEnd):
                        check_type(obj, Photons)
                        photons, emitter = obj.parse()
                        photon_bunches[obj.telescope] = photons
                        emitter_bunches[obj.telescope] = emitter
                        n_photons[obj.telescope] = obj.n_photons
                        n_bunches[obj.telescope] = obj.n_bunches
                        obj = self._next_object()
''', '''                    while not isinstance(obj, TelescopeArrayEnd):
                        check_type(obj, Photons)
                        add(obj, photon_bunches, emitter_bunches, n_photons, n_bunches)
                        obj = self._next_object()
'''), ('''                            photons, emitter = data.parse()
                            photon_bunches[data.telescope] = photons
                            emitter_bunches[data.telescope] = emitter
                            n_photons[data.telescope] = data.n_photons
                            n_bunches[data.telescope] = data.n_bunches
''', '''                            add(data, photon_bunches, emitter_bunches, n_photons, n_bunches)
'''), ('''class IACTFile(EventIOFile):''', '''def add(block, photon_bunches, emitter_bunches, n_photons, n_bunches):
    tel = block.telescope
    photon_bunches[tel], emitter_bunches[tel] = block.parse()
    n_photons[tel] = block.n_photons
    n_bunches[tel] = block.n_bunches


class IACTFile(EventIOFile):'''))

ed('iact/objects.py', ('''        input_card = bytearray()
        for i in range(n_strings):
            input_card += read_string(self)
            input_card += b'\\n'
        return input_card
''', '''        lines = [read_string(self) for _ in range(n_strings)]
        return bytearray(b''.join(line + b'\\n' for line in lines))
'''), ('''        data['cx'] /= 30000
        data['cy'] /= 30000
''', ''), ('''        data['cx'] = data['cx'].clip(min=-1., max=1.)
        data['cy'] = data['cy'].clip(min=-1., max=1.)
''', '''        for c in ('cx', 'cy'):
            data[c] = np.clip(data[c] / np.float32(30000), -1., 1.)
'''), ('''        if np.any(emitter_mask):
            photons = data[~emitter_mask]
            emitter = data[emitter_mask].view(self.emitter_dtype)
        else:
            photons = data
            emitter = None

        return photons, emitter
''', '''        if not emitter_mask.any():
            return data, None
        return data[~emitter_mask], data[emitter_mask].view(self.emitter_dtype)
'''))

ed('histograms.py', ('''                if hist['type'] in {'R', 'r', 'F', 'D'}:
                    hist['lower_' + ax] = read_float(self)
                    hist['upper_' + ax] = read_float(self)
                    hist['sum_' + ax] = read_float(self)
                    hist['tsum_' + ax] = read_float(self)
                else:
                    hist['lower_' + ax] = read_int(self)
                    hist['upper_' + ax] = read_int(self)
                    hist['sum_' + ax] = read_int(self)
                    hist['tsum_' + ax] = read_int(self)
''', '''                read_limit = read_float if hist['type'] in 'RrFD' else read_int
                for name in ('lower_', 'upper_', 'sum_', 'tsum_'):
                    hist[name + ax] = read_limit(self)
'''))

ed('simtel/objects.py', ('''def number_of_bits_in(n):
    m = 0
    for i in range(16):
        if n & (1 << i):
            m += 1
    return m
''', '''def number_of_bits_in(n):
    return bit_count(n & 0xffff)
'''), ('''        return {
            'telescope_id': self.telescope_id,
            'n_pixels': n_pixels,
            'n_drawers': n_drawers,
            'n_gains': n_gains,
            'n_sectors': n_sectors,
            'drawer': drawer,
            'card': card,
            'chip': chip,
            'channel': channel,
            'sectors': sectors,
            'sector_type': sector_data['type'],
            'sector_threshold': sector_data['threshold'],
            'sector_pixel_threshold': sector_data['pixel_threshold'],
        }

    def parse_v2(self):''', '''        return self._result(n_pixels, n_drawers, n_gains, n_sectors, drawer, card, chip, channel, sectors, sector_data)

    def _result(self, n_pixels, n_drawers, n_gains, n_sectors, drawer, card, chip, channel, sectors, sector_data):
        return {
            'telescope_id': self.telescope_id,
            'n_pixels': n_pixels,
            'n_drawers': n_drawers,
            'n_gains': n_gains,
            'n_sectors': n_sectors,
            'drawer': drawer,
            'card': card,
            'chip': chip,
            'channel': channel,
            'sectors': sectors,
            'sector_type': sector_data['type'],
            'sector_threshold': sector_data['threshold'],
            'sector_pixel_threshold': sector_data['pixel_threshold'],
        }

    def parse_v2(self):'''), ('''        if flags & 0b0000_0001 != 0:
            data['nsb_rate'] = read_array(byte_stream, np.float32, n_pixels)
        if flags & 0b0000_0010 != 0:
            data['qe_rel'] = read_array(byte_stream, np.float32, n_pixels)
        if flags & 0b0000_0100 != 0:
            data['gain_rel'] = read_array(byte_stream, np.float32, n_pixels)
        if flags & 0b0000_1000 != 0:
            data['hv_rel'] = read_array(byte_stream, np.float32, n_pixels)
        if flags & 0b0001_0000 != 0:
            data['current'] = read_array(byte_stream, np.float32, n_pixels)
        if flags & 0b0010_0000 != 0:
            data['fadc_amp_hg'] = read_array(byte_stream, np.float32, n_pixels)
        if flags''', '''        names = ('nsb_rate', 'qe_rel', 'gain_rel', 'hv_rel', 'current', 'fadc_amp_hg')
        for bit, name in enumerate(names):
            if flags & (1 << bit):
                data[name] = read_array(byte_stream, np.float32, n_pixels)
        if flags'''), ('''        for part_id in range(8):
            part_parser = part_parser_map[what & (1 << part_id)]
            result.update(part_parser(byte_stream=byte_stream, **part_parser_args))
''', '''        for bit, part_parser in part_parser_map.items():
            if bit and what & bit:
                result.update(part_parser(byte_stream=byte_stream, **part_parser_args))
'''), ('''                if bit_count(int(mask) & 0b1111) > 1:
                    event_info['teltrg_time_by_type'][tel_id] = {}
                    for trigger in range(H_MAX_TRIG_TYPES):
                        if bool_bit_from_pos(mask, trigger):
                            t = read_float(byte_stream)
                            event_info['teltrg_time_by_type'][tel_id][trigger] = t
''', '''                fired = [t for t in range(H_MAX_TRIG_TYPES) if (int(mask) >> t) & 1]
                if len(fired) > 1:
                    event_info['teltrg_time_by_type'][tel_id] = {
                        t: read_float(byte_stream) for t in fired
                    }
'''), ('''        for i_gain in range(n_gains):
            i_array = 0
            for pixel_range in pixel_ranges:
                for i_pix in range(*pixel_range):
                    adc_samples[i_gain, i_pix, :] = (
                        adc_samples_signal[i_gain, i_array]
                    )
                    i_array += 1
        return adc_samples
''', '''        i_array = 0
        for start, stop in pixel_ranges:
            n = max(stop - start, 0)
            for k in range(n):
                adc_samples[:, start + k] = adc_samples_signal[:, i_array + k]
            i_array += n
        return adc_samples
'''))

ed('scripts/cut_eventio_file.py', ('''    if unit is None:
        return int(size)

    if unit == 'k':
        return int(size * 1024)

    if unit == 'M':
        return int(size * 1024**2)

    if unit == 'G':
        return int(size * 1024**3)
''', '''    return int(size * 1024**' kMG'.index(unit or ' '))
'''))
ed('scripts/print_object_information.py', ('''            c.update([ObjectInfo(
                type=eventio_type,
                level=level,
                version=o.header.version,
                name=(o.__module__ + '.' + o.__class__.__qualname__)[8:],
            )])
''', '''            name = (o.__module__ + '.' + o.__class__.__qualname__)[8:]
            c[ObjectInfo(eventio_type, o.header.version, level, name)] += 1
'''))
ed('scripts/print_simtel_metaparams.py', ('''            if isinstance(o, HistoryMeta):
                found_meta = True
            else:
                if found_meta:
                    break
                else:
                    continue

            if''', '''            if not isinstance(o, HistoryMeta):
                if found_meta:
                    break
                continue

            found_meta = True
            if'''))
ed('var_int.pyx', ('''    if (value & 1) == 1:  # Negative number;
        return -(value >> 1) - 1, length
    return value >> 1, length
''', '''    cdef int64_t half = <int64_t> (value >> 1)
    if value & 1:
        return ~half, length
    return half, length
'''), ('''    for i in range(n_elements):
        length = get_length_of_varint(data[pos])
        output[i] = parse_varint(data[pos:pos + length])
        pos += length

    return output, pos - offset
''', '''    i = 0
    while i < n_elements:
        output[i], length = unsigned_varint(data, pos)
        pos += length
        i += 1

    return output, pos - offset
'''), ('''            if (v0 & 0x01) == 0:  # positive
                val += v0 >> 1
            else:  # negative
                val -= (v0 >> 1) + 1
''', '''            if v0 & 0x01:
                val += -1 - (v0 >> 1)
            else:
                val += v0 >> 1
'''))
